From 18c631953db600000e504b7381cb514c2fc2b133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:59 +0000
Subject: [PATCH 01/65] fix: do not update the parsing state of a refused NALU
 part when signing

---
 lib/src/signed_video_h26x_sign.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 50d9ffc..4a4fcc2 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -482,6 +482,11 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
     return SV_INVALID_PARAMETER;
   }
 
+  // Make sure that it is possible to add a NALU before updating |last_nalu|. Otherwise, a repeated
+  // call, after pulling the remaining SEIs, would be interpreted as a consecutive part.
+  svrc_t status = prepare_for_nalus_to_prepend(self);
+  if (status != SV_OK) return status;
+
   h26x_nalu_t nalu = {0};
   gop_info_t *gop_info = self->gop_info;
   // TODO: Consider moving this into parse_nalu_info().
@@ -503,10 +508,8 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
     nalu.hashable_data_size = nalu_data_size;
   }
 
-  svrc_t status = SV_UNKNOWN_FAILURE;
+  status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-    SV_THROW(prepare_for_nalus_to_prepend(self));
-
     SV_THROW_IF(nalu.is_valid < 0, SV_INVALID_PARAMETER);
 
     // Note that |recurrence| is counted in frames and not in NALUs, hence we only increment the
-- 
2.43.0


From 164538e84430891411bfc6c5815e6dec75755836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:36 +0000
Subject: [PATCH 02/65] fix: keep the parsing of malformed NAL Units and SEI
 payloads inside the data

---
 lib/src/signed_video_h26x_common.c |  58 +++++++++++++----
 lib/src/signed_video_h26x_sign.c   |   2 +-
 lib/src/signed_video_openssl.c     |  23 ++++---
 lib/src/signed_video_tlv.c         | 101 ++++++++++++++++++++---------
 4 files changed, 129 insertions(+), 55 deletions(-)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index a68dad2..2b7c85b 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -58,7 +58,7 @@ static void
 gop_info_free(gop_info_t *gop_info);
 
 static size_t
-h264_get_payload_size(const uint8_t *data, size_t *payload_size);
+h264_get_payload_size(const uint8_t *data, const uint8_t *data_end, size_t *payload_size);
 static SignedVideoUUIDType
 h264_get_uuid_sei_type(const uint8_t *uuid);
 static void
@@ -317,13 +317,15 @@ struct_member_memory_allocated_and_copy(void **member_ptr,
 }
 
 static size_t
-h264_get_payload_size(const uint8_t *data, size_t *payload_size)
+h264_get_payload_size(const uint8_t *data, const uint8_t *data_end, size_t *payload_size)
 {
   const uint8_t *data_ptr = data;
   // Get payload size (including uuid). We assume the data points to the size bytes.
-  while (*data_ptr == 0xFF) {
+  while (data_ptr < data_end && *data_ptr == 0xFF) {
     *payload_size += *data_ptr++;
   }
+  // The size bytes never ended.
+  if (data_ptr >= data_end) return 0;
   *payload_size += *data_ptr++;
 
   return (data_ptr - data);
@@ -342,6 +344,8 @@ h264_get_uuid_sei_type(const uint8_t *uuid)
 static bool
 parse_h264_nalu_header(h26x_nalu_t *nalu)
 {
+  if (nalu->hashable_data_size < H264_NALU_HEADER_LEN) return false;
+
   // Parse the H264 NAL Unit Header
   uint8_t nalu_header = *(nalu->hashable_data);
   bool forbidden_zero_bit = (bool)(nalu_header & 0x80);  // First bit
@@ -350,7 +354,8 @@ parse_h264_nalu_header(h26x_nalu_t *nalu)
   bool nalu_header_is_valid = false;
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = *(nalu->hashable_data + H264_NALU_HEADER_LEN) & 0x80;
+  nalu->is_primary_slice = (nalu->hashable_data_size > H264_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + H264_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -405,6 +410,8 @@ parse_h264_nalu_header(h26x_nalu_t *nalu)
 static bool
 parse_h265_nalu_header(h26x_nalu_t *nalu)
 {
+  if (nalu->hashable_data_size < H265_NALU_HEADER_LEN) return false;
+
   // Parse the H265 NAL Unit Header
   uint8_t nalu_header = *(nalu->hashable_data);
   bool forbidden_zero_bit = (bool)(nalu_header & 0x80);  // First bit
@@ -421,7 +428,8 @@ parse_h265_nalu_header(h26x_nalu_t *nalu)
   }
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = (*(nalu->hashable_data + H265_NALU_HEADER_LEN) & 0x80);
+  nalu->is_primary_slice = (nalu->hashable_data_size > H265_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + H265_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -534,6 +542,10 @@ remove_epb_from_sei_payload(h26x_nalu_t *nalu)
   nalu->reserved_byte = *nalu->tlv_start_in_nalu_data;
   nalu->tlv_start_in_nalu_data++;  // Move past the |reserved_byte|.
   nalu->tlv_size -= 1;  // Exclude the |reserved_byte| from TLV size.
+  // Make sure that the TLV part does not end outside the NALU data.
+  const size_t available_tlv_size =
+      nalu->hashable_data + nalu->hashable_data_size - nalu->tlv_start_in_nalu_data;
+  if (nalu->tlv_size > available_tlv_size) nalu->tlv_size = available_tlv_size;
   nalu->tlv_data = nalu->tlv_start_in_nalu_data;
   // Read flags from |reserved_byte|
   nalu->with_epb = (nalu->reserved_byte & 0x80);  // Hash with emulation prevention bytes
@@ -555,15 +567,25 @@ remove_epb_from_sei_payload(h26x_nalu_t *nalu)
     // Copy everything from the NALU header to stop bit (byte) inclusive, but with the emulation
     // prevention bytes removed.
     const uint8_t *hashable_data_ptr = nalu->hashable_data;
-    for (size_t i = 0; i < data_size; i++) {
+    const uint8_t *hashable_data_end = nalu->hashable_data + nalu->hashable_data_size;
+    size_t i = 0;
+    for (; i < data_size && hashable_data_end - hashable_data_ptr > 1; i++) {
       nalu->nalu_data_wo_epb[i] = read_byte(&last_two_bytes, &hashable_data_ptr, true);
     }
+    // The very last byte cannot be an emulation prevention byte.
+    if (i < data_size && hashable_data_ptr < hashable_data_end) {
+      nalu->nalu_data_wo_epb[i++] = *hashable_data_ptr;
+    }
     // Point |tlv_data| to the first byte of the TLV part in |nalu_data_wo_epb|.
-    nalu->tlv_data = &nalu->nalu_data_wo_epb[data_size - nalu->payload_size + UUID_LEN];
+    const size_t tlv_offset = data_size - nalu->payload_size + UUID_LEN;
+    nalu->tlv_data = &nalu->nalu_data_wo_epb[tlv_offset];
+    // If there were more emulation prevention bytes than expected the data ends too early.
+    const size_t read_tlv_size = i > tlv_offset ? i - tlv_offset : 0;
+    if (nalu->tlv_size > read_tlv_size) nalu->tlv_size = read_tlv_size;
     if (!nalu->with_epb) {
       // If the SEI was hashed before applying emulation prevention, update |hashable_data|.
       nalu->hashable_data = nalu->nalu_data_wo_epb;
-      nalu->hashable_data_size = data_size;
+      nalu->hashable_data_size = i;
       nalu->tlv_start_in_nalu_data = nalu->tlv_data;
     }
   }
@@ -606,9 +628,12 @@ parse_nalu_info(const uint8_t *nalu_data,
   // We need to support all three cases.
   const uint32_t kStartCode = 0x00000001;
   uint32_t start_code = 0;
-  size_t read_bytes = read_32bits(nalu_data, &start_code);
+  size_t read_bytes = 0;
   bool nalu_header_is_valid = false;
 
+  // A NALU, or a NALU part, can be shorter than a Start Code.
+  if (nalu_data_size >= 4) read_bytes = read_32bits(nalu_data, &start_code);
+
   if (start_code != kStartCode) {
     // Check if this is a 3 byte Start Code.
     read_bytes = 3;
@@ -620,6 +645,7 @@ parse_nalu_info(const uint8_t *nalu_data,
     }
   }
   nalu.hashable_data = &nalu_data[read_bytes];
+  nalu.hashable_data_size = nalu_data_size - read_bytes;
   nalu.start_code = start_code;
 
   if (codec == SV_CODEC_H264) {
@@ -641,7 +667,8 @@ parse_nalu_info(const uint8_t *nalu_data,
   // when exporting to an mp4 container file. This has so far only been observed for H265. The
   // reason for this is still unknown. Therefore we end the hashable part at the byte including the
   // stop bit.
-  while (check_trailing_bytes && (nalu_data[nalu_data_size - 1] == 0x00)) {
+  while (check_trailing_bytes && (nalu_data_size > read_bytes) &&
+      (nalu_data[nalu_data_size - 1] == 0x00)) {
     DEBUG_LOG("Found trailing 0x00");
     nalu_data_size--;
   }
@@ -651,13 +678,14 @@ parse_nalu_info(const uint8_t *nalu_data,
   if (nalu.nalu_type == NALU_TYPE_SEI) {
     // SEI NALU payload starts after the NALU header.
     const uint8_t *payload = nalu.hashable_data + nalu_header_len;
+    const uint8_t *payload_end = nalu.hashable_data + nalu.hashable_data_size;
     // Check user_data_unregistered
-    uint8_t user_data_unregistered = *payload;
+    uint8_t user_data_unregistered = (payload < payload_end) ? *payload : 0;
     payload++;
     if (user_data_unregistered == USER_DATA_UNREGISTERED) {
       // Decode payload size and compute emulation prevention bytes
       size_t payload_size = 0;
-      size_t read_bytes = h264_get_payload_size(payload, &payload_size);
+      size_t read_bytes = h264_get_payload_size(payload, payload_end, &payload_size);
       payload += read_bytes;
       nalu.payload = payload;
       nalu.payload_size = payload_size;
@@ -673,8 +701,10 @@ parse_nalu_info(const uint8_t *nalu_data,
       nalu.emulation_prevention_bytes = epb;
       DEBUG_LOG("Computed %d emulation prevention byte(s)", nalu.emulation_prevention_bytes);
 
-      // Decode UUID type
-      nalu.uuid_type = h264_get_uuid_sei_type(payload);
+      // Decode UUID type. There has to be at least a UUID and a |reserved_byte|.
+      if (read_bytes > 0 && payload_size > UUID_LEN && payload_end - payload > UUID_LEN) {
+        nalu.uuid_type = h264_get_uuid_sei_type(payload);
+      }
     } else {
       // We only have UUID if SEI-NALU is user_data_unregistered
       nalu.uuid_type = UUID_TYPE_UNDEFINED;
diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 4a4fcc2..390cd7c 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -502,7 +502,7 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
     nalu.nalu_data = nalu_data;
     nalu.hashable_data = nalu_data;
     // Remove any trailing 0x00 bytes at the end of a NALU.
-    while (is_last_part && (nalu_data[nalu_data_size - 1] == 0x00)) {
+    while (is_last_part && (nalu_data_size > 0) && (nalu_data[nalu_data_size - 1] == 0x00)) {
       nalu_data_size--;
     }
     nalu.hashable_data_size = nalu_data_size;
diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 90d83ec..e2923d0 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -402,6 +402,7 @@ oid_to_type(message_digest_t *self)
     SV_THROW_IF(
         !d2i_ASN1_OBJECT(&obj, &encoded_oid_ptr, self->encoded_oid_size), SV_EXTERNAL_ERROR);
     self->type = EVP_get_digestbyobj(obj);
+    SV_THROW_IF(!self->type, SV_EXTERNAL_ERROR);
     self->size = EVP_MD_size(self->type);
   SV_CATCH()
   SV_DONE(status)
@@ -485,20 +486,24 @@ openssl_set_hash_algo_by_encoded_oid(void *handle,
     return SV_OK;
   }
 
-  // A new hash algorithm to set. Reset existing one.
-  free(self->hash_algo.encoded_oid);
-  self->hash_algo.encoded_oid = NULL;
-  self->hash_algo.encoded_oid_size = 0;
+  // A new hash algorithm to set. The existing one is replaced only if the new one is known.
+  message_digest_t new_hash_algo = {0};
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-    self->hash_algo.encoded_oid = malloc(encoded_oid_size);
-    SV_THROW_IF(!self->hash_algo.encoded_oid, SV_MEMORY);
-    memcpy(self->hash_algo.encoded_oid, encoded_oid, encoded_oid_size);
-    self->hash_algo.encoded_oid_size = encoded_oid_size;
+    new_hash_algo.encoded_oid = malloc(encoded_oid_size);
+    SV_THROW_IF(!new_hash_algo.encoded_oid, SV_MEMORY);
+    memcpy(new_hash_algo.encoded_oid, encoded_oid, encoded_oid_size);
+    new_hash_algo.encoded_oid_size = encoded_oid_size;
+
+    SV_THROW(oid_to_type(&new_hash_algo));
 
-    SV_THROW(oid_to_type(&self->hash_algo));
+    free(self->hash_algo.encoded_oid);
+    self->hash_algo = new_hash_algo;
   SV_CATCH()
+  {
+    free(new_hash_algo.encoded_oid);
+  }
   SV_DONE(status)
 
   return status;
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index a0945cf..94e1d9e 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -20,9 +20,11 @@
  */
 #include "signed_video_tlv.h"
 
+#include <stddef.h>  // ptrdiff_t
 #ifdef PRINT_DECODED_SEI
 #include <stdio.h>
 #endif
+#include <string.h>  // memchr, memcpy
 
 #ifdef SV_VENDOR_AXIS_COMMUNICATIONS
 #include "axis-communications/sv_vendor_axis_communications_internal.h"
@@ -178,7 +180,11 @@ get_decoder(sv_tlv_tag_t tag);
 static sv_tlv_tuple_t
 get_tlv_tuple(sv_tlv_tag_t tag);
 static svrc_t
-decode_tlv_header(const uint8_t *data, size_t *data_bytes_read, sv_tlv_tag_t *tag, size_t *length);
+decode_tlv_header(const uint8_t *data,
+    size_t data_size,
+    size_t *data_bytes_read,
+    sv_tlv_tag_t *tag,
+    size_t *length);
 
 /* Selects and returns the correct decoder from either |tlv_tuples| or |vendor_tlv_tuples|. */
 static sv_tlv_decoder_t
@@ -318,6 +324,7 @@ decode_general(signed_video_t *self, const uint8_t *data, size_t data_size)
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     SV_THROW_IF(version < 1 || version > 3, SV_INCOMPATIBLE_VERSION);
+    SV_THROW_IF(data_size < (size_t)(1 + 4 + 2 + SV_VERSION_BYTES), SV_AUTHENTICATION_ERROR);
 
     data_ptr += read_32bits(data_ptr, &gop_info->global_gop_counter);
     DEBUG_LOG("Found GOP counter = %u", gop_info->global_gop_counter);
@@ -335,9 +342,11 @@ decode_general(signed_video_t *self, const uint8_t *data, size_t data_size)
     if (version >= 2) {
       // Read bool flags
       uint8_t flags = 0;
+      SV_THROW_IF(data_size - (data_ptr - data) < 1, SV_AUTHENTICATION_ERROR);
       data_ptr += read_8bits(data_ptr, &flags);
       gop_info->has_timestamp = flags & 0x01;
       if (gop_info->has_timestamp) {
+        SV_THROW_IF(data_size - (data_ptr - data) < 8, SV_AUTHENTICATION_ERROR);
         data_ptr += read_64bits_signed(data_ptr, &gop_info->timestamp);
       }
       if (self->latest_validation) {
@@ -349,6 +358,7 @@ decode_general(signed_video_t *self, const uint8_t *data, size_t data_size)
     }
     if (version >= 3) {
       hash_size = (data_size - (data_ptr - data)) / 2;
+      SV_THROW_IF(hash_size > MAX_HASH_SIZE, SV_AUTHENTICATION_ERROR);
       // Decode linked hash data.
       memcpy(self->received_linked_hash, data_ptr, hash_size);
       data_ptr += hash_size;
@@ -511,6 +521,22 @@ encode_product_info(signed_video_t *self, uint8_t *data)
   return (data_ptr - data);
 }
 
+/* Decodes one string, that is, one byte of string size followed by a null-terminated string, and
+ * moves |data_ptr| past it. The string has to fit in the data that ends at |data_end|. */
+static svrc_t
+decode_product_info_string(char **dst_str, const uint8_t **data_ptr, const uint8_t *data_end)
+{
+  if (*data_ptr >= data_end) return SV_AUTHENTICATION_ERROR;
+  const size_t str_size = *(*data_ptr)++;
+  if (str_size == 0 || str_size > (size_t)(data_end - *data_ptr)) return SV_AUTHENTICATION_ERROR;
+  if (!memchr(*data_ptr, '\0', str_size)) return SV_AUTHENTICATION_ERROR;
+
+  svrc_t status = allocate_memory_and_copy_string(dst_str, (const char *)*data_ptr);
+  *data_ptr += str_size;
+
+  return status;
+}
+
 /**
  * @brief Decodes the PRODUCT_INFO_TAG from data
  */
@@ -527,27 +553,13 @@ decode_product_info(signed_video_t *self, const uint8_t *data, size_t data_size)
     SV_THROW_IF(version == 0, SV_INCOMPATIBLE_VERSION);
 
     signed_video_product_info_t *product_info = self->product_info;
+    const uint8_t *data_end = data + data_size;
 
-    uint8_t hardware_id_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->hardware_id, (const char *)data_ptr));
-    data_ptr += hardware_id_size;
-
-    uint8_t firmware_version_size = *data_ptr++;
-    SV_THROW(
-        allocate_memory_and_copy_string(&product_info->firmware_version, (const char *)data_ptr));
-    data_ptr += firmware_version_size;
-
-    uint8_t serial_number_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->serial_number, (const char *)data_ptr));
-    data_ptr += serial_number_size;
-
-    uint8_t manufacturer_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->manufacturer, (const char *)data_ptr));
-    data_ptr += manufacturer_size;
-
-    uint8_t address_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->address, (const char *)data_ptr));
-    data_ptr += address_size;
+    SV_THROW(decode_product_info_string(&product_info->hardware_id, &data_ptr, data_end));
+    SV_THROW(decode_product_info_string(&product_info->firmware_version, &data_ptr, data_end));
+    SV_THROW(decode_product_info_string(&product_info->serial_number, &data_ptr, data_end));
+    SV_THROW(decode_product_info_string(&product_info->manufacturer, &data_ptr, data_end));
+    SV_THROW(decode_product_info_string(&product_info->address, &data_ptr, data_end));
 
     // Transfer the decoded |product_info| to the authenticity report.
     if (self->authenticity) {
@@ -617,8 +629,8 @@ decode_arbitrary_data(signed_video_t *self, const uint8_t *data, size_t data_siz
     SV_THROW_IF(arbdata_size == 0, SV_AUTHENTICATION_ERROR);
     uint8_t *arbdata = realloc(self->arbitrary_data, arbdata_size);
     SV_THROW_IF(!arbdata, SV_MEMORY);
-    memcpy(arbdata, data_ptr, arbdata_size);
     self->arbitrary_data = arbdata;
+    memcpy(arbdata, data_ptr, arbdata_size);
     self->arbitrary_data_size = arbdata_size;
     data_ptr += arbdata_size;
     SV_THROW_IF(data_ptr != data + data_size, SV_AUTHENTICATION_ERROR);
@@ -702,6 +714,7 @@ decode_public_key(signed_video_t *self, const uint8_t *data, size_t data_size)
   // The algo was removed in version 2 since it is not needed. Simply move to next byte if
   // older version.
   if (version < 2) {
+    if (pubkey_size == 0) return SV_AUTHENTICATION_ERROR;
     data_ptr++;
     pubkey_size -= 1;
   }
@@ -900,6 +913,8 @@ decode_signature(signed_video_t *self, const uint8_t *data, size_t data_size)
   gop_info_t *gop_info = self->gop_info;
   sign_or_verify_data_t *verify_data = self->verify_data;
   uint8_t **signature_ptr = &verify_data->signature;
+  // There have to be at least version, info field, hash type and signature size.
+  if (data_size < 5) return SV_AUTHENTICATION_ERROR;
   uint8_t version = *data_ptr++;
   uint8_t encoding_status = *data_ptr++;
   hash_type_t hash_type = *data_ptr++;
@@ -997,9 +1012,12 @@ encode_crypto_info(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_crypto_info(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  // There have to be at least version and OID size.
+  if (data_size < 2) return SV_AUTHENTICATION_ERROR;
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   size_t hash_algo_encoded_oid_size = *data_ptr++;
+  if (hash_algo_encoded_oid_size != data_size - 2) return SV_AUTHENTICATION_ERROR;
   const unsigned char *hash_algo_encoded_oid = (const unsigned char *)data_ptr;
   char *hash_algo_name =
       openssl_encoded_oid_to_str(hash_algo_encoded_oid, hash_algo_encoded_oid_size);
@@ -1150,29 +1168,43 @@ tlv_list_encode_or_get_size(signed_video_t *self,
   return tlv_list_size;
 }
 
+/* Decodes the tag and length of the TLV located at |data|. Both the header and the value are
+ * guaranteed to fit in |data_size| if successful. */
 static svrc_t
-decode_tlv_header(const uint8_t *data, size_t *data_bytes_read, sv_tlv_tag_t *tag, size_t *length)
+decode_tlv_header(const uint8_t *data,
+    size_t data_size,
+    size_t *data_bytes_read,
+    sv_tlv_tag_t *tag,
+    size_t *length)
 {
   // Sanity checks on input parameters.
-  if (!data || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
+  if (!data || data_size == 0 || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
 
   const uint8_t *data_ptr = data;
   sv_tlv_tag_t tag_from_data = (sv_tlv_tag_t)(*data_ptr++);
   *data_bytes_read = 0;
   sv_tlv_tuple_t tlv = get_tlv_tuple(tag_from_data);
-  if (tlv.tag != tag_from_data) {
+  if (tlv.tag != tag_from_data || !tlv.decoder) {
     DEBUG_LOG("Parsed an invalid tag (%d) in the data", tag_from_data);
     return SV_INVALID_PARAMETER;
   }
   *tag = tag_from_data;
 
+  if (data_size < (size_t)(1 + tlv.bytes_for_length)) return SV_AUTHENTICATION_ERROR;
   if (tlv.bytes_for_length == 2) {
-    data_ptr += read_16bits(data_ptr, (uint16_t *)length);
+    uint16_t length_two_bytes = 0;
+    data_ptr += read_16bits(data_ptr, &length_two_bytes);
+    *length = length_two_bytes;
   } else {
     *length = *data_ptr++;
   }
 
   *data_bytes_read = (data_ptr - data);
+  // An empty tag is never transmitted.
+  if (*length == 0 || *length > data_size - *data_bytes_read) {
+    DEBUG_LOG("The value of tag %d does not fit in the data", tag_from_data);
+    return SV_AUTHENTICATION_ERROR;
+  }
 
   return SV_OK;
 }
@@ -1189,7 +1221,8 @@ tlv_decode(signed_video_t *self, const uint8_t *data, size_t data_size)
     sv_tlv_tag_t tag = 0;
     size_t tlv_header_size = 0;
     size_t length = 0;
-    status = decode_tlv_header(data_ptr, &tlv_header_size, &tag, &length);
+    status = decode_tlv_header(
+        data_ptr, data_size - (data_ptr - data), &tlv_header_size, &tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode TLV header (error %d)", status);
       break;
@@ -1217,7 +1250,10 @@ tlv_find_tag(const uint8_t *tlv_data, size_t tlv_data_size, sv_tlv_tag_t tag, bo
   if (!tlv_data || tlv_data_size == 0) return 0;
 
   uint16_t last_two_bytes = LAST_TWO_BYTES_INIT_VALUE;
-  while (tlv_data_ptr < tlv_data + tlv_data_size) {
+  const uint8_t *tlv_data_end = tlv_data + tlv_data_size;
+  // Reading a byte may move past an emulation prevention byte as well.
+  const ptrdiff_t max_read_size = with_ep ? 2 : 1;
+  while (tlv_data_end - tlv_data_ptr >= max_read_size) {
     latest_tag_location = tlv_data_ptr;
     // Read the tag
     sv_tlv_tag_t this_tag = read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
@@ -1226,14 +1262,16 @@ tlv_find_tag(const uint8_t *tlv_data, size_t tlv_data_size, sv_tlv_tag_t tag, bo
     }
 
     // Read the length
+    if (tlv_data_end - tlv_data_ptr < max_read_size) break;
     uint16_t length = read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
     sv_tlv_tuple_t tlv = get_tlv_tuple(this_tag);
     if (tlv.bytes_for_length == 2) {
+      if (tlv_data_end - tlv_data_ptr < max_read_size) break;
       length <<= 8;
       length |= read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
     }
     // Scan past the data
-    for (int i = 0; i < length; i++) {
+    for (int i = 0; i < length && tlv_data_end - tlv_data_ptr >= max_read_size; i++) {
       read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
     }
   }
@@ -1257,13 +1295,14 @@ tlv_find_and_decode_optional_tags(signed_video_t *self,
     size_t tlv_header_size = 0;
     size_t length = 0;
     sv_tlv_tag_t this_tag = UNDEFINED_TAG;
-    status = decode_tlv_header(tlv_data_ptr, &tlv_header_size, &this_tag, &length);
+    status = decode_tlv_header(tlv_data_ptr, tlv_data_size - (tlv_data_ptr - tlv_data),
+        &tlv_header_size, &this_tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode tlv header");
       break;
     }
     tlv_data_ptr += tlv_header_size;
-    if (!tlv_tuples[this_tag].is_always_present) {
+    if (!get_tlv_tuple(this_tag).is_always_present) {
       sv_tlv_decoder_t decoder = get_decoder(this_tag);
       status = decoder(self, tlv_data_ptr, length);
       if (status != SV_OK) {
-- 
2.43.0


From 7d6f3ce37b6d63297f050344d2bf7eeeb798e179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:01 +0000
Subject: [PATCH 03/65] fix: keep the legacy and vendor decoders inside
 malformed data

---
 lib/src/legacy/legacy_h26x_common.c           | 56 ++++++++++----
 lib/src/legacy/legacy_tlv.c                   | 76 ++++++++++++-------
 .../sv_vendor_axis_communications.c           |  5 +-
 3 files changed, 97 insertions(+), 40 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_common.c b/lib/src/legacy/legacy_h26x_common.c
index 8d8cd5e..17c15da 100644
--- a/lib/src/legacy/legacy_h26x_common.c
+++ b/lib/src/legacy/legacy_h26x_common.c
@@ -171,13 +171,15 @@ legacy_reset_gop_hash(legacy_sv_t *self)
 }
 
 static size_t
-legacy_get_payload_size(const uint8_t *data, size_t *payload_size)
+legacy_get_payload_size(const uint8_t *data, const uint8_t *data_end, size_t *payload_size)
 {
   const uint8_t *data_ptr = data;
   // Get payload size (including uuid). We assume the data points to the size bytes.
-  while (*data_ptr == 0xFF) {
+  while (data_ptr < data_end && *data_ptr == 0xFF) {
     *payload_size += *data_ptr++;
   }
+  // The size bytes never ended.
+  if (data_ptr >= data_end) return 0;
   *payload_size += *data_ptr++;
 
   return (data_ptr - data);
@@ -196,6 +198,8 @@ legacy_get_uuid_sei_type(const uint8_t *uuid)
 static bool
 legacy_parse_h264_nalu_header(legacy_h26x_nalu_t *nalu)
 {
+  if (nalu->hashable_data_size < LEGACY_H264_NALU_HEADER_LEN) return false;
+
   // Parse the H264 NAL Unit Header
   uint8_t nalu_header = *(nalu->hashable_data);
   bool forbidden_zero_bit = (bool)(nalu_header & 0x80);  // First bit
@@ -204,7 +208,8 @@ legacy_parse_h264_nalu_header(legacy_h26x_nalu_t *nalu)
   bool nalu_header_is_valid = false;
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = *(nalu->hashable_data + LEGACY_H264_NALU_HEADER_LEN) & 0x80;
+  nalu->is_primary_slice = (nalu->hashable_data_size > LEGACY_H264_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + LEGACY_H264_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -259,6 +264,8 @@ legacy_parse_h264_nalu_header(legacy_h26x_nalu_t *nalu)
 static bool
 legacy_parse_h265_nalu_header(legacy_h26x_nalu_t *nalu)
 {
+  if (nalu->hashable_data_size < LEGACY_H265_NALU_HEADER_LEN) return false;
+
   // Parse the H265 NAL Unit Header
   uint8_t nalu_header = *(nalu->hashable_data);
   bool forbidden_zero_bit = (bool)(nalu_header & 0x80);  // First bit
@@ -275,7 +282,8 @@ legacy_parse_h265_nalu_header(legacy_h26x_nalu_t *nalu)
   }
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = (*(nalu->hashable_data + LEGACY_H265_NALU_HEADER_LEN) & 0x80);
+  nalu->is_primary_slice = (nalu->hashable_data_size > LEGACY_H265_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + LEGACY_H265_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -388,6 +396,10 @@ legacy_remove_epb_from_sei_payload(legacy_h26x_nalu_t *nalu)
   nalu->reserved_byte = *nalu->tlv_start_in_nalu_data;
   nalu->tlv_start_in_nalu_data++;  // Move past the |reserved_byte|.
   nalu->tlv_size -= 1;  // Exclude the |reserved_byte| from TLV size.
+  // Make sure that the TLV part does not end outside the NALU data.
+  const size_t available_tlv_size =
+      nalu->hashable_data + nalu->hashable_data_size - nalu->tlv_start_in_nalu_data;
+  if (nalu->tlv_size > available_tlv_size) nalu->tlv_size = available_tlv_size;
   nalu->tlv_data = nalu->tlv_start_in_nalu_data;
   // Read flags from |reserved_byte|
   nalu->with_epb = (nalu->reserved_byte & 0x80);  // Hash with emulation prevention bytes
@@ -409,15 +421,25 @@ legacy_remove_epb_from_sei_payload(legacy_h26x_nalu_t *nalu)
     // Copy everything from the NALU header to stop bit (byte) inclusive, but with the emulation
     // prevention bytes removed.
     const uint8_t *hashable_data_ptr = nalu->hashable_data;
-    for (size_t i = 0; i < data_size; i++) {
+    const uint8_t *hashable_data_end = nalu->hashable_data + nalu->hashable_data_size;
+    size_t i = 0;
+    for (; i < data_size && hashable_data_end - hashable_data_ptr > 1; i++) {
       nalu->nalu_data_wo_epb[i] = read_byte(&last_two_bytes, &hashable_data_ptr, true);
     }
+    // The very last byte cannot be an emulation prevention byte.
+    if (i < data_size && hashable_data_ptr < hashable_data_end) {
+      nalu->nalu_data_wo_epb[i++] = *hashable_data_ptr;
+    }
     // Point |tlv_data| to the first byte of the TLV part in |nalu_data_wo_epb|.
-    nalu->tlv_data = &nalu->nalu_data_wo_epb[data_size - nalu->payload_size + UUID_LEN];
+    const size_t tlv_offset = data_size - nalu->payload_size + UUID_LEN;
+    nalu->tlv_data = &nalu->nalu_data_wo_epb[tlv_offset];
+    // If there were more emulation prevention bytes than expected the data ends too early.
+    const size_t read_tlv_size = i > tlv_offset ? i - tlv_offset : 0;
+    if (nalu->tlv_size > read_tlv_size) nalu->tlv_size = read_tlv_size;
     if (!nalu->with_epb) {
       // If the SEI was hashed before applying emulation prevention, update |hashable_data|.
       nalu->hashable_data = nalu->nalu_data_wo_epb;
-      nalu->hashable_data_size = data_size;
+      nalu->hashable_data_size = i;
       nalu->tlv_start_in_nalu_data = nalu->tlv_data;
     }
   }
@@ -460,9 +482,12 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
   // We need to support all three cases.
   const uint32_t kStartCode = 0x00000001;
   uint32_t start_code = 0;
-  size_t read_bytes = read_32bits(nalu_data, &start_code);
+  size_t read_bytes = 0;
   bool nalu_header_is_valid = false;
 
+  // A NALU can be shorter than a Start Code.
+  if (nalu_data_size >= 4) read_bytes = read_32bits(nalu_data, &start_code);
+
   if (start_code != kStartCode) {
     // Check if this is a 3 byte Start Code.
     read_bytes = 3;
@@ -474,6 +499,7 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
     }
   }
   nalu.hashable_data = &nalu_data[read_bytes];
+  nalu.hashable_data_size = nalu_data_size - read_bytes;
   nalu.start_code = start_code;
 
   if (codec == SV_CODEC_H264) {
@@ -495,7 +521,8 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
   // when exporting to an mp4 container file. This has so far only been observed for H265. The
   // reason for this is still unknown. Therefore we end the hashable part at the byte including the
   // stop bit.
-  while (check_trailing_bytes && (nalu_data[nalu_data_size - 1] == 0x00)) {
+  while (check_trailing_bytes && (nalu_data_size > read_bytes) &&
+      (nalu_data[nalu_data_size - 1] == 0x00)) {
     DEBUG_LOG("Found trailing 0x00");
     nalu_data_size--;
   }
@@ -505,13 +532,14 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
   if (nalu.nalu_type == NALU_TYPE_SEI) {
     // SEI NALU payload starts after the NALU header.
     const uint8_t *payload = nalu.hashable_data + nalu_header_len;
+    const uint8_t *payload_end = nalu.hashable_data + nalu.hashable_data_size;
     // Check user_data_unregistered
-    uint8_t user_data_unregistered = *payload;
+    uint8_t user_data_unregistered = (payload < payload_end) ? *payload : 0;
     payload++;
     if (user_data_unregistered == LEGACY_USER_DATA_UNREGISTERED) {
       // Decode payload size and compute emulation prevention bytes
       size_t payload_size = 0;
-      size_t read_bytes = legacy_get_payload_size(payload, &payload_size);
+      size_t read_bytes = legacy_get_payload_size(payload, payload_end, &payload_size);
       payload += read_bytes;
       nalu.payload = payload;
       nalu.payload_size = payload_size;
@@ -527,8 +555,10 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
       nalu.emulation_prevention_bytes = epb;
       DEBUG_LOG("Computed %d emulation prevention byte(s)", nalu.emulation_prevention_bytes);
 
-      // Decode UUID type
-      nalu.uuid_type = legacy_get_uuid_sei_type(payload);
+      // Decode UUID type. There has to be at least a UUID and a |reserved_byte|.
+      if (read_bytes > 0 && payload_size > UUID_LEN && payload_end - payload > UUID_LEN) {
+        nalu.uuid_type = legacy_get_uuid_sei_type(payload);
+      }
     } else {
       // We only have UUID if SEI-NALU is user_data_unregistered
       nalu.uuid_type = UUID_TYPE_UNDEFINED;
diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index ab75a40..1bcce41 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -134,6 +134,7 @@ static legacy_sv_tlv_tuple_t
 legacy_get_tlv_tuple(sv_tlv_tag_t tag);
 static svrc_t
 legacy_decode_tlv_header(const uint8_t *data,
+    size_t data_size,
     size_t *data_bytes_read,
     sv_tlv_tag_t *tag,
     size_t *length);
@@ -184,6 +185,7 @@ legacy_decode_general(legacy_sv_t *self, const uint8_t *data, size_t data_size)
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     SV_THROW_IF(version < 1 || version > 2, SV_INCOMPATIBLE_VERSION);
+    SV_THROW_IF(data_size < (size_t)(1 + 4 + 2 + SV_VERSION_BYTES), SV_AUTHENTICATION_ERROR);
 
     data_ptr += read_32bits(data_ptr, &gop_info->global_gop_counter);
     DEBUG_LOG("Found GOP counter = %u", gop_info->global_gop_counter);
@@ -201,9 +203,11 @@ legacy_decode_general(legacy_sv_t *self, const uint8_t *data, size_t data_size)
     if (version >= 2) {
       // Read bool flags
       uint8_t flags = 0;
+      SV_THROW_IF(data_size - (data_ptr - data) < 1, SV_AUTHENTICATION_ERROR);
       data_ptr += read_8bits(data_ptr, &flags);
       gop_info->has_timestamp = flags & 0x01;
       if (gop_info->has_timestamp) {
+        SV_THROW_IF(data_size - (data_ptr - data) < 8, SV_AUTHENTICATION_ERROR);
         data_ptr += read_64bits_signed(data_ptr, &gop_info->timestamp);
       }
       if (self->latest_validation) {
@@ -235,6 +239,22 @@ legacy_decode_general(legacy_sv_t *self, const uint8_t *data, size_t data_size)
   return status;
 }
 
+/* Decodes one string, that is, one byte of string size followed by a null-terminated string, and
+ * moves |data_ptr| past it. The string has to fit in the data that ends at |data_end|. */
+static svrc_t
+legacy_decode_product_info_string(char **dst_str, const uint8_t **data_ptr, const uint8_t *data_end)
+{
+  if (*data_ptr >= data_end) return SV_AUTHENTICATION_ERROR;
+  const size_t str_size = *(*data_ptr)++;
+  if (str_size == 0 || str_size > (size_t)(data_end - *data_ptr)) return SV_AUTHENTICATION_ERROR;
+  if (!memchr(*data_ptr, '\0', str_size)) return SV_AUTHENTICATION_ERROR;
+
+  svrc_t status = allocate_memory_and_copy_string(dst_str, (const char *)*data_ptr);
+  *data_ptr += str_size;
+
+  return status;
+}
+
 /**
  * @brief Decodes the PRODUCT_INFO_TAG from data
  */
@@ -251,27 +271,14 @@ legacy_decode_product_info(legacy_sv_t *self, const uint8_t *data, size_t data_s
     SV_THROW_IF(version == 0, SV_INCOMPATIBLE_VERSION);
 
     signed_video_product_info_t *product_info = self->product_info;
+    const uint8_t *data_end = data + data_size;
 
-    uint8_t hardware_id_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->hardware_id, (const char *)data_ptr));
-    data_ptr += hardware_id_size;
-
-    uint8_t firmware_version_size = *data_ptr++;
+    SV_THROW(legacy_decode_product_info_string(&product_info->hardware_id, &data_ptr, data_end));
     SV_THROW(
-        allocate_memory_and_copy_string(&product_info->firmware_version, (const char *)data_ptr));
-    data_ptr += firmware_version_size;
-
-    uint8_t serial_number_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->serial_number, (const char *)data_ptr));
-    data_ptr += serial_number_size;
-
-    uint8_t manufacturer_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->manufacturer, (const char *)data_ptr));
-    data_ptr += manufacturer_size;
-
-    uint8_t address_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->address, (const char *)data_ptr));
-    data_ptr += address_size;
+        legacy_decode_product_info_string(&product_info->firmware_version, &data_ptr, data_end));
+    SV_THROW(legacy_decode_product_info_string(&product_info->serial_number, &data_ptr, data_end));
+    SV_THROW(legacy_decode_product_info_string(&product_info->manufacturer, &data_ptr, data_end));
+    SV_THROW(legacy_decode_product_info_string(&product_info->address, &data_ptr, data_end));
 
     // Transfer the decoded |product_info| to the authenticity report.
     SV_THROW(transfer_product_info(&self->authenticity->product_info, product_info));
@@ -308,8 +315,8 @@ legacy_decode_arbitrary_data(legacy_sv_t *self, const uint8_t *data, size_t data
     SV_THROW_IF(arbdata_size == 0, SV_AUTHENTICATION_ERROR);
     uint8_t *arbdata = realloc(self->arbitrary_data, arbdata_size);
     SV_THROW_IF(!arbdata, SV_MEMORY);
-    memcpy(arbdata, data_ptr, arbdata_size);
     self->arbitrary_data = arbdata;
+    memcpy(arbdata, data_ptr, arbdata_size);
     self->arbitrary_data_size = arbdata_size;
     data_ptr += arbdata_size;
     SV_THROW_IF(data_ptr != data + data_size, SV_AUTHENTICATION_ERROR);
@@ -345,6 +352,7 @@ legacy_decode_public_key(legacy_sv_t *self, const uint8_t *data, size_t data_siz
   // The algo was removed in version 2 since it is not needed. Simply move to next byte if
   // older version.
   if (version < 2) {
+    if (pubkey_size == 0) return SV_AUTHENTICATION_ERROR;
     data_ptr++;
     pubkey_size -= 1;
   }
@@ -446,6 +454,8 @@ legacy_decode_signature(legacy_sv_t *self, const uint8_t *data, size_t data_size
   legacy_gop_info_t *gop_info = self->gop_info;
   sign_or_verify_data_t *verify_data = self->verify_data;
   uint8_t **signature_ptr = &verify_data->signature;
+  // There have to be at least version, info field, hash type and signature size.
+  if (data_size < 5) return SV_AUTHENTICATION_ERROR;
   uint8_t version = *data_ptr++;
   uint8_t encoding_status = *data_ptr++;
   legacy_hash_type_t hash_type = *data_ptr++;
@@ -499,9 +509,12 @@ legacy_decode_signature(legacy_sv_t *self, const uint8_t *data, size_t data_size
 static svrc_t
 legacy_decode_crypto_info(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  // There have to be at least version and OID size.
+  if (data_size < 2) return SV_AUTHENTICATION_ERROR;
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   size_t hash_algo_encoded_oid_size = *data_ptr++;
+  if (hash_algo_encoded_oid_size != data_size - 2) return SV_AUTHENTICATION_ERROR;
   const unsigned char *hash_algo_encoded_oid = (const unsigned char *)data_ptr;
   char *hash_algo_name =
       openssl_encoded_oid_to_str(hash_algo_encoded_oid, hash_algo_encoded_oid_size);
@@ -556,30 +569,39 @@ legacy_decode_axis_communications(legacy_sv_t ATTR_UNUSED *self,
 
 static svrc_t
 legacy_decode_tlv_header(const uint8_t *data,
+    size_t data_size,
     size_t *data_bytes_read,
     sv_tlv_tag_t *tag,
     size_t *length)
 {
   // Sanity checks on input parameters.
-  if (!data || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
+  if (!data || data_size == 0 || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
 
   const uint8_t *data_ptr = data;
   sv_tlv_tag_t tag_from_data = (sv_tlv_tag_t)(*data_ptr++);
   *data_bytes_read = 0;
   legacy_sv_tlv_tuple_t tlv = legacy_get_tlv_tuple(tag_from_data);
-  if (tlv.tag != tag_from_data) {
+  if (tlv.tag != tag_from_data || !tlv.decoder) {
     DEBUG_LOG("Parsed an invalid tag (%d) in the data", tag_from_data);
     return SV_INVALID_PARAMETER;
   }
   *tag = tag_from_data;
 
+  if (data_size < (size_t)(1 + tlv.bytes_for_length)) return SV_AUTHENTICATION_ERROR;
   if (tlv.bytes_for_length == 2) {
-    data_ptr += read_16bits(data_ptr, (uint16_t *)length);
+    uint16_t length_two_bytes = 0;
+    data_ptr += read_16bits(data_ptr, &length_two_bytes);
+    *length = length_two_bytes;
   } else {
     *length = *data_ptr++;
   }
 
   *data_bytes_read = (data_ptr - data);
+  // An empty tag is never transmitted.
+  if (*length == 0 || *length > data_size - *data_bytes_read) {
+    DEBUG_LOG("The value of tag %d does not fit in the data", tag_from_data);
+    return SV_AUTHENTICATION_ERROR;
+  }
 
   return SV_OK;
 }
@@ -596,7 +618,8 @@ legacy_tlv_decode(legacy_sv_t *self, const uint8_t *data, size_t data_size)
     sv_tlv_tag_t tag = 0;
     size_t tlv_header_size = 0;
     size_t length = 0;
-    status = legacy_decode_tlv_header(data_ptr, &tlv_header_size, &tag, &length);
+    status = legacy_decode_tlv_header(
+        data_ptr, data_size - (data_ptr - data), &tlv_header_size, &tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode TLV header (error %d)", status);
       break;
@@ -630,13 +653,14 @@ legacy_tlv_find_and_decode_optional_tags(legacy_sv_t *self,
     size_t tlv_header_size = 0;
     size_t length = 0;
     sv_tlv_tag_t this_tag = UNDEFINED_TAG;
-    status = legacy_decode_tlv_header(tlv_data_ptr, &tlv_header_size, &this_tag, &length);
+    status = legacy_decode_tlv_header(tlv_data_ptr, tlv_data_size - (tlv_data_ptr - tlv_data),
+        &tlv_header_size, &this_tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode tlv header");
       break;
     }
     tlv_data_ptr += tlv_header_size;
-    if (!tlv_tuples[this_tag].is_always_present) {
+    if (!legacy_get_tlv_tuple(this_tag).is_always_present) {
       legacy_sv_tlv_decoder_t decoder = legacy_get_decoder(this_tag);
       status = decoder(self, tlv_data_ptr, length);
       if (status != SV_OK) {
diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 66daf95..7ee6399 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -614,9 +614,12 @@ decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     SV_THROW_IF(version != 1, SV_INCOMPATIBLE_VERSION);
+    SV_THROW_IF(data_size < 2, SV_AUTHENTICATION_ERROR);
     // Read |attestation_size|.
     attestation_size = *data_ptr++;
     SV_THROW_IF(attestation_size == 0, SV_NOT_SUPPORTED);
+    // There has to be a |certificate_chain| after the |attestation|.
+    SV_THROW_IF(data_size <= (size_t)attestation_size + 2, SV_AUTHENTICATION_ERROR);
     // Allocate memory for |attestation|.
     if (!self->attestation) {
       self->attestation = malloc(attestation_size);
@@ -636,7 +639,6 @@ decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data
     //  - 1 byte for version
     //  - 1 bytes for |attestation_size|
     //  - |attestation_size| bytes for |attestation|
-    SV_THROW_IF(data_size <= (size_t)attestation_size + 2, SV_AUTHENTICATION_ERROR);
     cert_size = data_size - attestation_size - 2;
 
     // Allocate memory for |certificate_chain| including null-terminated character.
@@ -646,6 +648,7 @@ decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data
       memcpy(self->certificate_chain, data_ptr, cert_size);
     }
     // Compare incoming certificate chain against present and throw an error if they differ.
+    SV_THROW_IF(strlen(self->certificate_chain) != cert_size, SV_NOT_SUPPORTED);
     SV_THROW_IF(memcmp(data_ptr, self->certificate_chain, cert_size), SV_NOT_SUPPORTED);
     // Move pointer past |certificate_chain|.
     data_ptr += cert_size;
-- 
2.43.0


From ea9259e5e335a9a45f36fb6251edd717be351b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:22 +0000
Subject: [PATCH 04/65] fix: find the hash algorithm in the SEI also when the
 public key is provided by the user

---
 lib/src/signed_video_h26x_auth.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index b4c74f5..40cfe36 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -843,12 +843,43 @@ prepare_for_validation(signed_video_t *self)
   return status;
 }
 
+// If the public key has been provided by the user, the hash algorithm is still to be found among the
+// recurrent tags. Only the cryptographic information is decoded. The public key in the SEI should
+// not be decoded at this point since it is compared against the provided one upon validation.
+static bool
+is_hash_algo_decoded(signed_video_t *self)
+{
+  const h26x_nalu_list_item_t *item = self->nalu_list->first_item;
+
+  while (item) {
+    if (item->nalu && item->nalu->is_gop_sei && item->validation_status == 'P') {
+      const uint8_t *tlv_data = item->nalu->tlv_data;
+      size_t tlv_size = item->nalu->tlv_size;
+      const uint8_t *tag = tlv_find_tag(tlv_data, tlv_size, CRYPTO_INFO_TAG, false);
+      if (tag && tlv_size - (tag - tlv_data) > 1) {
+        const size_t crypto_info_size = 2 + (size_t)tag[1];  // Tag, length and value
+        if (crypto_info_size > tlv_size - (tag - tlv_data)) return false;
+        return tlv_decode(self, tag, crypto_info_size) == SV_OK;
+      }
+      // Without cryptographic information among the recurrent tags the default one is used.
+      if (tlv_find_tag(tlv_data, tlv_size, PRODUCT_INFO_TAG, false)) return true;
+    }
+    item = item->next;
+  }
+
+  return false;
+}
+
 // If public_key is not received then try to decode all recurrent tags.
 static bool
 is_recurrent_data_decoded(signed_video_t *self)
 {
   h26x_nalu_list_t *nalu_list = self->nalu_list;
 
+  if (self->has_public_key && self->validation_flags.signing_present &&
+      !self->validation_flags.hash_algo_known) {
+    return is_hash_algo_decoded(self);
+  }
   if (self->has_public_key || !self->validation_flags.signing_present) return true;
 
   bool recurrent_data_decoded = false;
-- 
2.43.0


From 7ae2493c1c83aa37155baf604565b145c3b4d647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:29 +0000
Subject: [PATCH 05/65] fix: remove all missing NALU items added by a failed
 first validation

---
 lib/src/signed_video_h26x_nalu_list.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/signed_video_h26x_nalu_list.c b/lib/src/signed_video_h26x_nalu_list.c
index 0a9e3db..6ada5fb 100644
--- a/lib/src/signed_video_h26x_nalu_list.c
+++ b/lib/src/signed_video_h26x_nalu_list.c
@@ -402,7 +402,7 @@ h26x_nalu_list_add_missing(h26x_nalu_list_t *list,
   return status;
 }
 
-/* Removes 'M' items present at the beginning of the |list|. A decoded SEI is marked
+/* Removes 'M' items present in the |list| before the decoded SEI. A decoded SEI is marked
  * as 'U' since it is not associated with this recording. The screening keeps going
  * until we find the decoded SEI. */
 void
@@ -415,8 +415,8 @@ h26x_nalu_list_remove_missing_items(h26x_nalu_list_t *list)
   h26x_nalu_list_item_t *item = list->first_item;
   while (item && !(found_first_pending_nalu && found_decoded_sei)) {
     // Reset the invalid verification failure if we have not past the first pending item.
-    // Remove the missing NALU in the front.
-    if (item->validation_status == 'M' && (item == list->first_item)) {
+    // Remove the missing NALU.
+    if (item->validation_status == 'M') {
       const h26x_nalu_list_item_t *item_to_remove = item;
       item = item->next;
       h26x_nalu_list_remove_and_free_item(list, item_to_remove);
-- 
2.43.0


From 28cce03d8f8456f45a7c0d530b4390f7a44f27a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:42 +0000
Subject: [PATCH 06/65] fix: report NOT_OK when the signature of a SEI could
 not be verified

---
 lib/src/signed_video_h26x_auth.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 40cfe36..7c20427 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -627,6 +627,7 @@ validate_authenticity(signed_video_t *self)
   int num_invalid_nalus = -1;
   int num_missed_nalus = -1;
   bool verify_success = false;
+  bool sei_is_authentic = true;
 
   if (gop_state->has_lost_sei && !gop_state->gop_transition_is_lost) {
     DEBUG_LOG("We never received the SEI associated with this GOP");
@@ -635,6 +636,8 @@ validate_authenticity(signed_video_t *self)
     verify_success = verify_hashes_without_sei(self);
   } else {
     verify_success = verify_hashes_with_sei(self, &num_expected_nalus, &num_received_nalus);
+    // Without a successfully verified signature there is nothing that can be trusted.
+    sei_is_authentic = (self->gop_info->verified_signature_hash == 1);
     // Set |latest_validated_gop| to recived gop counter for the next validation.
     self->gop_info->latest_validated_gop = self->gop_info->global_gop_counter;
   }
@@ -647,7 +650,7 @@ validate_authenticity(signed_video_t *self)
   DEBUG_LOG("Number of missed NALUs = %d.", num_missed_nalus);
   remove_used_in_gop_hash(self->nalu_list);
 
-  valid = (num_invalid_nalus > 0) ? SV_AUTH_RESULT_NOT_OK : SV_AUTH_RESULT_OK;
+  valid = (num_invalid_nalus > 0 || !sei_is_authentic) ? SV_AUTH_RESULT_NOT_OK : SV_AUTH_RESULT_OK;
 
   // Post-validation actions.
 
-- 
2.43.0


From 5491caca81f500a63978af37cd2e0fb53cc285af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:22 +0000
Subject: [PATCH 07/65] fix: do not get stuck when both the NAL Units of a GOP
 and a SEI are lost

---
 lib/src/signed_video_h26x_auth.c      |  7 ++++++-
 lib/src/signed_video_h26x_nalu_list.c | 14 ++++++++++++++
 lib/src/signed_video_h26x_nalu_list.h | 10 ++++++++++
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 7c20427..9c6d36e 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -628,8 +628,11 @@ validate_authenticity(signed_video_t *self)
   int num_missed_nalus = -1;
   bool verify_success = false;
   bool sei_is_authentic = true;
+  bool gop_is_lost = false;
+  // If all NALUs of the GOP are lost there is nothing to verify.
+  const bool has_nalus_to_verify = h26x_nalu_list_has_items_used_in_gop_hash(self->nalu_list);
 
-  if (gop_state->has_lost_sei && !gop_state->gop_transition_is_lost) {
+  if (gop_state->has_lost_sei && !gop_state->gop_transition_is_lost && has_nalus_to_verify) {
     DEBUG_LOG("We never received the SEI associated with this GOP");
     // We never received the SEI nalu, but we know we have passed a GOP transition. Hence, we cannot
     // verify this GOP. Marking this GOP as not OK by verify_hashes_without_sei().
@@ -638,6 +641,7 @@ validate_authenticity(signed_video_t *self)
     verify_success = verify_hashes_with_sei(self, &num_expected_nalus, &num_received_nalus);
     // Without a successfully verified signature there is nothing that can be trusted.
     sei_is_authentic = (self->gop_info->verified_signature_hash == 1);
+    gop_is_lost = !has_nalus_to_verify && self->gop_info->num_sent_nalus > 0;
     // Set |latest_validated_gop| to recived gop counter for the next validation.
     self->gop_info->latest_validated_gop = self->gop_info->global_gop_counter;
   }
@@ -663,6 +667,7 @@ validate_authenticity(signed_video_t *self)
         (num_missed_nalus >= num_expected_nalus)) {
       valid = SV_AUTH_RESULT_NOT_OK;
     }
+    if (gop_is_lost) valid = SV_AUTH_RESULT_NOT_OK;
     self->gop_info->global_gop_counter_is_synced = true;
   }
   // Determine if this GOP is valid, but has missing information. This happens if we have detected
diff --git a/lib/src/signed_video_h26x_nalu_list.c b/lib/src/signed_video_h26x_nalu_list.c
index 6ada5fb..7268c50 100644
--- a/lib/src/signed_video_h26x_nalu_list.c
+++ b/lib/src/signed_video_h26x_nalu_list.c
@@ -495,6 +495,20 @@ h26x_nalu_list_get_stats(const h26x_nalu_list_t *list,
   return has_valid_nalus;
 }
 
+/* Returns true if there are any items |used_in_gop_hash|. */
+bool
+h26x_nalu_list_has_items_used_in_gop_hash(const h26x_nalu_list_t *list)
+{
+  if (!list) return false;
+
+  const h26x_nalu_list_item_t *item = list->first_item;
+  while (item && !item->used_in_gop_hash) {
+    item = item->next;
+  }
+
+  return item != NULL;
+}
+
 /* Counts and returns number of items pending validation. */
 int
 h26x_nalu_list_num_pending_items(const h26x_nalu_list_t *list)
diff --git a/lib/src/signed_video_h26x_nalu_list.h b/lib/src/signed_video_h26x_nalu_list.h
index 2ff4c2e..182e97c 100644
--- a/lib/src/signed_video_h26x_nalu_list.h
+++ b/lib/src/signed_video_h26x_nalu_list.h
@@ -151,6 +151,16 @@ h26x_nalu_list_get_stats(const h26x_nalu_list_t* list,
     int* num_invalid_nalus,
     int* num_missing_nalus);
 
+/**
+ * @brief Checks if there are any items used in the GOP hash
+ *
+ * @param list The h26x_nalu_list_t object to look through
+ *
+ * @returns True if there is at least one item |used_in_gop_hash|.
+ */
+bool
+h26x_nalu_list_has_items_used_in_gop_hash(const h26x_nalu_list_t *list);
+
 /**
  * @brief Counts and returns number of items pending validation
  *
-- 
2.43.0


From b2cf53a15407da299894789ff873cdc6f4baa285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:11 +0000
Subject: [PATCH 08/65] fix: finalize the GOP hash of the last GOP at the end
 of a stream

---
 lib/src/signed_video_h26x_sign.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 390cd7c..f750159 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -731,6 +731,9 @@ signed_video_set_end_of_stream(signed_video_t *self)
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     SV_THROW(prepare_for_nalus_to_prepend(self));
+    // The end of the stream is the end of the current GOP. Hence, finalize its GOP hash.
+    SV_THROW(
+        openssl_finalize_hash(self->crypto_handle, self->gop_info->computed_gop_hash, true));
     SV_THROW(generate_sei_nalu(self, &payload, &payload_signature_ptr));
     add_payload_to_buffer(self, payload, payload_signature_ptr);
     // Fetch the signature. If it is not ready we exit without generating the SEI.
-- 
2.43.0


From 206d7823b51db0e54679f617778b6c44c78db301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:43 +0000
Subject: [PATCH 09/65] fix: do not complete new SEIs while pulling SEIs to
 prepend

---
 lib/src/signed_video_h26x_sign.c | 15 +++++++++++++--
 lib/src/signed_video_internal.h  |  3 +++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index f750159..d1d17be 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -442,6 +442,7 @@ prepare_for_nalus_to_prepend(signed_video_t *self)
       SV_THROW_IF_WITH_MSG(
           self->num_of_completed_seis > 0, SV_NOT_SUPPORTED, "There are remaining SEIs.");
     }
+    self->is_pulling_seis = false;
   SV_CATCH()
   SV_DONE(status)
 
@@ -608,10 +609,16 @@ get_latest_sei(signed_video_t *self, uint8_t *sei, size_t *sei_size)
   if (!self || !sei_size) return SV_INVALID_PARAMETER;
   *sei_size = 0;
 
-  svrc_t status = get_signature_complete_sei_and_add_to_prepend(self);
-  if (status != SV_OK) return status;
+  // The SEIs are pulled with the latest first. If more SEIs are completed before all of them have
+  // been pulled, the order is lost. Hence, only complete new SEIs when starting to pull.
+  if (!self->is_pulling_seis) {
+    svrc_t status = get_signature_complete_sei_and_add_to_prepend(self);
+    if (status != SV_OK) return status;
+    self->is_pulling_seis = true;
+  }
   if (self->num_of_completed_seis < 1) {
     DEBUG_LOG("There are no completed seis.");
+    self->is_pulling_seis = false;
     return SV_OK;
   }
 
@@ -708,6 +715,10 @@ signed_video_get_nalu_to_prepend(signed_video_t *self,
   svrc_t status = get_latest_sei(self, NULL, sei_size);
   if (SV_OK == status && *sei_size != 0) {
     nalu_to_prepend->nalu_data = malloc(*sei_size);
+    if (!nalu_to_prepend->nalu_data) {
+      *sei_size = 0;
+      return SV_MEMORY;
+    }
     nalu_to_prepend->prepend_instruction = SIGNED_VIDEO_PREPEND_NALU;
     status = get_latest_sei(self, nalu_to_prepend->nalu_data, &nalu_to_prepend->nalu_data_size);
   }
diff --git a/lib/src/signed_video_internal.h b/lib/src/signed_video_internal.h
index 6531f19..d9db008 100644
--- a/lib/src/signed_video_internal.h
+++ b/lib/src/signed_video_internal.h
@@ -156,6 +156,9 @@ struct _signed_video_t {
   bool avoid_checking_available_seis;  // Temporary flag to avoid checking for available SEIs when
                                        // peek NAL Units are used when getting SEIs, since they
                                        // might be postponed.
+  // TODO: Remove this flag when the deprecated API get_nalus_to_prepend have been removed.
+  bool is_pulling_seis;  // Flag indicating that SEIs are being pulled, latest first, through
+                         // signed_video_get_nalu_to_prepend().
 
   // For signing plugin
   void *plugin_handle;
-- 
2.43.0


From 37d0bad1ce7fd4f4de9ded6360e1d6472e6766b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:15 +0000
Subject: [PATCH 10/65] fix: remove the SEI of a failed signature instead of
 pairing it with a later one

---
 lib/plugins/threaded-signing/plugin.c         | 10 ++++---
 .../includes/signed_video_signing_plugin.h    |  3 ++
 lib/src/signed_video_h26x_sign.c              | 28 +++++++++++--------
 3 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index c37600b..53a4ce9 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -279,8 +279,9 @@ done:
 
 /* If
  *   1. the |id| matches the oldest |out|, and
- *   2. the signature in |out| has been copied to |signature|
- * then returns true, otherwise false.
+ *   2. the signature in |out| has been copied to |signature|, or the signing failed
+ * then returns true, otherwise false. If the signing failed |written_signature_size| is zero and
+ * |error| is set.
  * Moves the signatures in |out| forward when the copy is done. */
 static bool
 get_signature(threaded_data_t *self,
@@ -320,9 +321,10 @@ get_signature(threaded_data_t *self,
     // Copy the oldest signature
     memcpy(signature, self->out[0].signature, self->out[0].size);
     *written_signature_size = self->out[0].size;
-    // Mark as copied.
-    has_copied_signature = true;
   }
+  // Mark as copied, also if there is no signature to copy. The session has to know that there will
+  // be no signature, otherwise it ends up out of sync with the signatures.
+  has_copied_signature = true;
   // Move buffer
   signature_data_t tmp = self->out[0];
   reset_signature_buffer(&tmp);
diff --git a/lib/src/includes/signed_video_signing_plugin.h b/lib/src/includes/signed_video_signing_plugin.h
index 38ea277..c7209a6 100644
--- a/lib/src/includes/signed_video_signing_plugin.h
+++ b/lib/src/includes/signed_video_signing_plugin.h
@@ -71,6 +71,9 @@ sv_signing_plugin_sign(void *handle, const uint8_t *hash, size_t hash_size);
  * @param error Pointer to catch an error that occured when signing. A NULL pointer is
  *   allowed to skip collecting an error.
  *
+ * If a hash could not be signed True should be returned with |written_signature_size| set to 0 and
+ * |error| set accordingly. The library then removes the corresponding SEI and moves on.
+ *
  * @returns True if signature is updated, else False
  */
 bool
diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index d1d17be..cbd9075 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -120,15 +120,20 @@ complete_sei_nalu_and_add_to_prepend(signed_video_t *self)
   uint8_t *payload_signature_ptr = sei_data->write_position;
   self->last_two_bytes = sei_data->last_two_bytes;
 
+  if (!payload) {
+    // No more pending payloads. Already freed due to too many unsigned SEIs.
+    status = SV_OK;
+    goto done;
+  }
+
   // If the signature could not be generated |signature_size| equals zero. Free the started SEI and
   // move on. This is a valid operation. What will happen is that the video will have an unsigned
   // GOP.
   if (self->sign_data->signature_size == 0) {
     signed_video_nalu_data_free(payload);
-    status = SV_OK;
-    goto done;
-  } else if (!payload) {
-    // No more pending payloads. Already freed due to too many unsigned SEIs.
+    shift_sei_buffer_at_index(self, self->num_of_completed_seis);
+    // Make sure that the metadata, if part of the freed SEI, is added to the next one.
+    self->has_recurrent_data = true;
     status = SV_OK;
     goto done;
   }
@@ -571,7 +576,12 @@ get_signature_complete_sei_and_add_to_prepend(signed_video_t *self)
     sign_or_verify_data_t *sign_data = self->sign_data;
     while (sv_signing_plugin_get_signature(self->plugin_handle, sign_data->signature,
         sign_data->max_signature_size, &sign_data->signature_size, &signature_error)) {
-      SV_THROW(signature_error);
+      if (signature_error != SV_OK) {
+        // Failed to sign the oldest pending SEI. Remove it to not pair it with a later signature.
+        sign_data->signature_size = 0;
+        SV_THROW(complete_sei_nalu_and_add_to_prepend(self));
+        SV_THROW(signature_error);
+      }
 #ifdef SIGNED_VIDEO_DEBUG
       // TODO: This might not work for blocked signatures, that is if the hash in
       // |sign_data| does not correspond to the copied |signature|.
@@ -748,13 +758,7 @@ signed_video_set_end_of_stream(signed_video_t *self)
     SV_THROW(generate_sei_nalu(self, &payload, &payload_signature_ptr));
     add_payload_to_buffer(self, payload, payload_signature_ptr);
     // Fetch the signature. If it is not ready we exit without generating the SEI.
-    sign_or_verify_data_t *sign_data = self->sign_data;
-    SignedVideoReturnCode signature_error = SV_UNKNOWN_FAILURE;
-    while (sv_signing_plugin_get_signature(self->plugin_handle, sign_data->signature,
-        sign_data->max_signature_size, &sign_data->signature_size, &signature_error)) {
-      SV_THROW(signature_error);
-      SV_THROW(complete_sei_nalu_and_add_to_prepend(self));
-    }
+    SV_THROW(get_signature_complete_sei_and_add_to_prepend(self));
 
   SV_CATCH()
   SV_DONE(status)
-- 
2.43.0


From 478fc36c698b1f6f61d91363d15334fb4f756e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:47 +0000
Subject: [PATCH 11/65] fix: start the next GOP from scratch when the SEI of a
 GOP could not be generated

---
 lib/src/signed_video_h26x_sign.c | 66 ++++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 17 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index cbd9075..e5dc80c 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -176,6 +176,20 @@ shift_sei_buffer_at_index(signed_video_t *self, int index)
   self->sei_data_buffer_idx -= 1;
 }
 
+/* Resets the members of |gop_info| that should start from scratch with every GOP. */
+static void
+reset_gop(gop_info_t *gop_info)
+{
+  // Reset the |num_nalus_in_gop_hash| since we start a new GOP.
+  gop_info->num_nalus_in_gop_hash = 0;
+  // Reset the |hash_list| by rewinding the |list_idx| since we start a new GOP.
+  gop_info->list_idx = 0;
+  // End of GOP. Reset flag to get new reference.
+  gop_info->has_reference_hash = false;
+  // Reset the timestamp to avoid including a duplicate in the next SEI.
+  gop_info->has_timestamp = false;
+}
+
 /* This function generates a SEI NALU of type "user data unregistered". The payload encoded in this
  * SEI is constructed using a set of TLVs. The TLVs are organized as follows;
  *  | metadata | maybe hash_list | signature |
@@ -359,15 +373,7 @@ generate_sei_nalu(signed_video_t *self, uint8_t **payload, uint8_t **payload_sig
       memcpy(sign_data->hash, gop_info->gop_hash, hash_size);
     }
 
-    // Reset the |num_nalus_in_gop_hash| since we start a new GOP.
-    gop_info->num_nalus_in_gop_hash = 0;
-    // Reset the |hash_list| by rewinding the |list_idx| since we start a new GOP.
-    gop_info->list_idx = 0;
-
-    // End of GOP. Reset flag to get new reference.
-    self->gop_info->has_reference_hash = false;
-    // Reset the timestamp to avoid including a duplicate in the next SEI.
-    gop_info->has_timestamp = false;
+    reset_gop(gop_info);
 
     SV_THROW(sv_signing_plugin_sign(self->plugin_handle, sign_data->hash, sign_data->hash_size));
   SV_CATCH()
@@ -454,6 +460,35 @@ prepare_for_nalus_to_prepend(signed_video_t *self)
   return status;
 }
 
+/* Finalizes the GOP hash, generates a SEI for the GOP and adds it to the buffer of SEIs waiting for
+ * signatures. If that fails the GOP becomes unsigned, and the next GOP still has to start from
+ * scratch. */
+static svrc_t
+generate_sei_of_gop(signed_video_t *self)
+{
+  gop_info_t *gop_info = self->gop_info;
+  const uint32_t gop_counter = gop_info->global_gop_counter + 1;
+  uint8_t *payload = NULL;
+  uint8_t *payload_signature_ptr = NULL;
+
+  svrc_t status = SV_UNKNOWN_FAILURE;
+  SV_TRY()
+    // If there are hashes added to the hash list, the |computed_gop_hash| can be finalized.
+    SV_THROW(openssl_finalize_hash(self->crypto_handle, gop_info->computed_gop_hash, true));
+    SV_THROW(generate_sei_nalu(self, &payload, &payload_signature_ptr));
+    // Add |payload| to buffer. Will be picked up again when the signature has been generated.
+    add_payload_to_buffer(self, payload, payload_signature_ptr);
+  SV_CATCH()
+  {
+    reset_gop(gop_info);
+    // Count the unsigned GOP to make it detectable when validating.
+    gop_info->global_gop_counter = gop_counter;
+  }
+  SV_DONE(status)
+
+  return status;
+}
+
 /**
  * @brief Public signed_video_sign.h APIs
  */
@@ -528,6 +563,7 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
     }
 
     // Finalize GOP hash and generate SEI if the NALU is I frame of a non-empty GOP.
+    svrc_t sei_status = SV_OK;
     if (nalu.is_first_nalu_in_gop && nalu.is_last_nalu_part) {
       if (self->sei_generation_enabled) {
         if (timestamp) {
@@ -535,14 +571,7 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
           self->gop_info->has_timestamp = true;
         }
 
-        uint8_t *payload = NULL;
-        uint8_t *payload_signature_ptr = NULL;
-
-        // If there are hashes added to the hash list, the |computed_gop_hash| can be finalized.
-        SV_THROW(openssl_finalize_hash(self->crypto_handle, gop_info->computed_gop_hash, true));
-        SV_THROW(generate_sei_nalu(self, &payload, &payload_signature_ptr));
-        // Add |payload| to buffer. Will be picked up again when the signature has been generated.
-        add_payload_to_buffer(self, payload, payload_signature_ptr);
+        sei_status = generate_sei_of_gop(self);
         // The previous GOP is now completed. The gop_hash was reset right after signing and
         // adding it to the SEI.
       }
@@ -552,6 +581,9 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
     if (nalu.is_first_nalu_in_gop && nalu.is_last_nalu_part) {
       SV_THROW(update_linked_hash(self, gop_info->nalu_hash, self->sign_data->hash_size));
     }
+    // Report if the SEI could not be generated. The NALU has been added, hence it should not be added
+    // again, which SV_NOT_SUPPORTED would suggest.
+    SV_THROW(sei_status == SV_NOT_SUPPORTED ? SV_EXTERNAL_ERROR : sei_status);
 
   SV_CATCH()
   SV_DONE(status)
-- 
2.43.0


From 8ce24c22c023dad2ce6ad1f929f65cfb5de12194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:41 +0000
Subject: [PATCH 12/65] fix: repeat the metadata as configured also when
 signatures are delayed

---
 lib/src/signed_video_h26x_sign.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index e5dc80c..7affe66 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -147,11 +147,6 @@ complete_sei_nalu_and_add_to_prepend(signed_video_t *self)
   }
   self->num_of_completed_seis++;
 
-  // Unset flag when SEI is completed and prepended.
-  // Note: If signature could not be generated then nalu data is freed. See
-  // |signed_video_nalu_data_free| above in this function. In this case the flag is still set and
-  // a SEI with all metatdata is created next time.
-  self->has_recurrent_data = false;
   return SV_OK;
 
 done:
@@ -376,6 +371,9 @@ generate_sei_nalu(signed_video_t *self, uint8_t **payload, uint8_t **payload_sig
     reset_gop(gop_info);
 
     SV_THROW(sv_signing_plugin_sign(self->plugin_handle, sign_data->hash, sign_data->hash_size));
+    // Unset flag when a SEI with all metadata has been generated. Note that the signature may be
+    // completed much later, when the metadata should be added again.
+    self->has_recurrent_data = false;
   SV_CATCH()
   {
     DEBUG_LOG("Failed generating the SEI");
-- 
2.43.0


From fb6b1a89cf9efe934a062147cffdc825dabc0459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:15 +0000
Subject: [PATCH 13/65] fix: only mark one GOP when a SEI has been lost

---
 lib/src/signed_video_h26x_auth.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 9c6d36e..0af8673 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -562,7 +562,7 @@ verify_hashes_without_sei(signed_video_t *self)
   int num_marked_items = 0;
   h26x_nalu_list_item_t *item = nalu_list->first_item;
   bool found_next_gop = false;
-  while (item && !found_next_gop) {
+  while (item) {
     // Skip non-pending items.
     if (item->validation_status != 'P') {
       item = item->next;
@@ -573,13 +573,15 @@ verify_hashes_without_sei(signed_video_t *self)
     if (item->nalu->is_gop_sei) {
       break;
     }
+    // Stop at the first pending NALU of the next GOP. There may be non-pending items in between.
+    if (num_marked_items > 0 && item->nalu->is_first_nalu_in_gop && !item->used_for_linked_hash) {
+      found_next_gop = true;
+      break;
+    }
     item->validation_status = 'N';
     num_marked_items++;
 
     item = item->next;
-    if (item) {
-      found_next_gop = item->nalu->is_first_nalu_in_gop && !item->used_for_linked_hash;
-    }
   }
   // If we have verified a GOP without a SEI, we should increment the |global_gop_counter|.
   if (self->validation_flags.signing_present && (num_marked_items > 0)) {
-- 
2.43.0


From 8936451b167dcf0cccd1e055b6c28c1bcca06ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:15 +0000
Subject: [PATCH 14/65] fix: do not let a SEI that cannot be decoded block the
 validation of later ones

---
 lib/src/signed_video_h26x_auth.c | 5 ++++-
 lib/src/signed_video_tlv.c       | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 0af8673..bd2a1a6 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -802,7 +802,10 @@ prepare_for_validation(signed_video_t *self)
         self->latest_validation->public_key_has_changed = false;
         const uint8_t *tlv_data = sei->nalu->tlv_data;
         size_t tlv_size = sei->nalu->tlv_size;
-        SV_THROW(decode_sei_data(self, tlv_data, tlv_size));
+        const svrc_t decode_status = decode_sei_data(self, tlv_data, tlv_size);
+        // A SEI that cannot be decoded should not be tried again, which would block later ones.
+        if (decode_status != SV_OK) sei->validation_status = 'E';
+        SV_THROW(decode_status);
         sei->has_been_decoded = true;
         memcpy(verify_data->hash, sei->hash, hash_size);
       }
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index 94e1d9e..a1fcd1d 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -736,11 +736,12 @@ decode_public_key(signed_video_t *self, const uint8_t *data, size_t data_size)
       self->latest_validation->public_key_has_changed = true;
     }
     memcpy(pem_public_key->key, data_ptr, pubkey_size);
-    self->has_public_key = true;
     data_ptr += pubkey_size;
 
     // Convert to EVP_PKEY_CTX
     SV_THROW(openssl_public_key_malloc(self->verify_data, &self->pem_public_key));
+    // A public key that cannot be read should not prevent reading it from a later SEI.
+    self->has_public_key = true;
 
 #ifdef SV_VENDOR_AXIS_COMMUNICATIONS
     // If "Axis Communications AB" can be identified from the |product_info|, set |public_key| to
-- 
2.43.0


From 3eff069f3a22effdd76392d6d9e53c6a8f4c4275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:15 +0000
Subject: [PATCH 15/65] fix: detect GOPs for which the SEI has already been
 used

---
 lib/src/signed_video_h26x_auth.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index bd2a1a6..81bfbe3 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -249,6 +249,28 @@ prepare_for_link_and_gop_hash_verification(signed_video_t *self, h26x_nalu_list_
   return status;
 }
 
+/* Detects if the oldest pending GOP is a GOP prior to the one associated with the |sei|, for which
+ * the SEI has been lost or already been used. The linked hash in a SEI is the hash of the first NALU
+ * in the preceding GOP. Hence, if that NALU is still pending, and the oldest pending GOP is not the
+ * one associated with the |sei|, there will be no SEI to validate it with. */
+static void
+detect_gop_without_sei(signed_video_t *self, const h26x_nalu_list_item_t *sei)
+{
+  // The very first SEI may be associated with a GOP not present.
+  if (self->validation_flags.is_first_validation || verify_gop_hash(self)) return;
+
+  const size_t hash_size = self->verify_data->hash_size;
+  const h26x_nalu_list_item_t *item = self->nalu_list->first_item;
+  while (item && item != sei) {
+    if (item->validation_status == 'P' && item->nalu->is_first_nalu_in_gop && item->second_hash &&
+        memcmp(item->second_hash, self->received_linked_hash, hash_size) == 0) {
+      self->gop_state.has_lost_sei = true;
+      return;
+    }
+    item = item->next;
+  }
+}
+
 /* Verifies the hashes of the oldest pending GOP from a hash list.
  *
  * If the |document_hash| in the SEI is verified successfully with the signature and the Public key,
@@ -811,6 +833,7 @@ prepare_for_validation(signed_video_t *self)
       }
       detect_lost_sei(self);
       SV_THROW(prepare_for_link_and_gop_hash_verification(self, sei));
+      detect_gop_without_sei(self, sei);
     }
 
     SV_THROW_IF_WITH_MSG(validation_flags->signing_present && !self->has_public_key,
-- 
2.43.0


From b501504c8085199a585ba54bbd3e7e4ca4ac5b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:00 +0000
Subject: [PATCH 16/65] fix: try the next SEI if the hash algorithm of one
 cannot be decoded

---
 lib/src/signed_video_h26x_auth.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 81bfbe3..a532695 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -894,11 +894,15 @@ is_hash_algo_decoded(signed_video_t *self)
       const uint8_t *tag = tlv_find_tag(tlv_data, tlv_size, CRYPTO_INFO_TAG, false);
       if (tag && tlv_size - (tag - tlv_data) > 1) {
         const size_t crypto_info_size = 2 + (size_t)tag[1];  // Tag, length and value
-        if (crypto_info_size > tlv_size - (tag - tlv_data)) return false;
-        return tlv_decode(self, tag, crypto_info_size) == SV_OK;
+        // If the information in this SEI cannot be used, try the next SEI.
+        if (crypto_info_size <= tlv_size - (tag - tlv_data) &&
+            tlv_decode(self, tag, crypto_info_size) == SV_OK) {
+          return true;
+        }
+      } else if (tlv_find_tag(tlv_data, tlv_size, PRODUCT_INFO_TAG, false)) {
+        // Without cryptographic information among the recurrent tags the default one is used.
+        return true;
       }
-      // Without cryptographic information among the recurrent tags the default one is used.
-      if (tlv_find_tag(tlv_data, tlv_size, PRODUCT_INFO_TAG, false)) return true;
     }
     item = item->next;
   }
-- 
2.43.0


From ef354bcb8e0e578e67ddf73f791680ede78e0e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:29 +0000
Subject: [PATCH 17/65] fix: keep the hashable data of a SEI without emulation
 prevention bytes

---
 lib/src/signed_video_h26x_nalu_list.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_nalu_list.c b/lib/src/signed_video_h26x_nalu_list.c
index 7268c50..1e644d2 100644
--- a/lib/src/signed_video_h26x_nalu_list.c
+++ b/lib/src/signed_video_h26x_nalu_list.c
@@ -319,7 +319,13 @@ h26x_nalu_list_copy_last_item(h26x_nalu_list_t *list, bool hash_algo_known)
   while (!(item->nalu)) {
     item = item->prev;
   }
-  int hashable_data_offset = item->nalu->hashable_data - item->nalu->nalu_data;
+  // The |hashable_data| of a SEI hashed without emulation prevention bytes is not a part of the
+  // |nalu_data|, but of the memory from which the emulation prevention bytes have been removed.
+  const bool is_separate_data = item->nalu->hashable_data &&
+      (item->nalu->hashable_data == item->nalu->nalu_data_wo_epb);
+  const size_t hashable_data_offset = is_separate_data
+      ? item->nalu->nalu_data_size
+      : (size_t)(item->nalu->hashable_data - item->nalu->nalu_data);
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
@@ -333,11 +339,13 @@ h26x_nalu_list_copy_last_item(h26x_nalu_list_t *list, bool hash_algo_known)
     }
     // If the library does not know which hash algo to use, store the |hashable_data| for later.
     if (!hash_algo_known) {
-      nalu_data = malloc(item->nalu->nalu_data_size);
+      const size_t separate_size = is_separate_data ? item->nalu->hashable_data_size : 0;
+      nalu_data = malloc(item->nalu->nalu_data_size + separate_size);
       SV_THROW_IF(!nalu_data, SV_MEMORY);
       memcpy(nalu_data, item->nalu->nalu_data, item->nalu->nalu_data_size);
       if (item->nalu->is_hashable) {
         hashable_data = nalu_data + hashable_data_offset;
+        if (is_separate_data) memcpy(hashable_data, item->nalu->hashable_data, separate_size);
       }
     }
     copy_nalu_except_pointers(copied_nalu, item->nalu);
-- 
2.43.0


From 157ba8a88d2fe5e8267f100c23b15b68383fdbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:29 +0000
Subject: [PATCH 18/65] fix: do not associate a golden SEI with a GOP

---
 lib/src/signed_video_h26x_auth.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index a532695..46f00b0 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -831,9 +831,12 @@ prepare_for_validation(signed_video_t *self)
         sei->has_been_decoded = true;
         memcpy(verify_data->hash, sei->hash, hash_size);
       }
-      detect_lost_sei(self);
-      SV_THROW(prepare_for_link_and_gop_hash_verification(self, sei));
-      detect_gop_without_sei(self, sei);
+      // A golden SEI is not associated with a GOP.
+      if (!sei->nalu->is_golden_sei) {
+        detect_lost_sei(self);
+        SV_THROW(prepare_for_link_and_gop_hash_verification(self, sei));
+        detect_gop_without_sei(self, sei);
+      }
     }
 
     SV_THROW_IF_WITH_MSG(validation_flags->signing_present && !self->has_public_key,
-- 
2.43.0


From 9b209b7042d2913555064dda230eb2be7b2bfbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:29 +0000
Subject: [PATCH 19/65] fix: continue with the next SEI if an older one could
 not be decoded

---
 lib/src/signed_video_h26x_auth.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 46f00b0..1ffd84e 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1081,7 +1081,15 @@ maybe_validate_gop(signed_video_t *self, h26x_nalu_t *nalu)
         latest->number_of_received_picture_nalus = 0;
         latest->number_of_pending_picture_nalus = -1;
       }
-      SV_THROW(prepare_for_validation(self));
+      const h26x_nalu_list_item_t *sei = h26x_nalu_list_get_next_sei_item(nalu_list);
+      const svrc_t prepare_status = prepare_for_validation(self);
+      // If an older SEI could not be decoded, continue with the next one.
+      if (prepare_status != SV_OK && sei && sei != nalu_list->last_item &&
+          sei->validation_status == 'E') {
+        latest->number_of_pending_picture_nalus = h26x_nalu_list_num_pending_items(nalu_list);
+        continue;
+      }
+      SV_THROW(prepare_status);
       update_link_hash_for_auth(self);
 
       if (!validation_flags->signing_present) {
-- 
2.43.0


From e4db4e3c2abd686811d76f5a63fa7eeecbad12b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:19 +0000
Subject: [PATCH 20/65] fix: report NOT_OK when the public key of a golden SEI
 differs from a known one

---
 lib/src/signed_video_h26x_auth.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 1ffd84e..35733c0 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1042,7 +1042,10 @@ maybe_validate_gop(signed_video_t *self, h26x_nalu_t *nalu)
           case 1:
             // Signature verified successfully.
             nalu_list->last_item->validation_status = '.';
-            latest->authenticity = SV_AUTH_RESULT_SIGNATURE_PRESENT;
+            // The public key in the golden SEI is not allowed to differ from a known one.
+            latest->authenticity = latest->public_key_has_changed
+                ? SV_AUTH_RESULT_NOT_OK
+                : SV_AUTH_RESULT_SIGNATURE_PRESENT;
             break;
           case 0:
             // Signature verification failed.
-- 
2.43.0


From 313744e6681aca740e17a50b9514f1601c74054b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:19 +0000
Subject: [PATCH 21/65] fix: do not replace the accumulated authenticity by a
 result without validation

---
 lib/src/signed_video_authenticity.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_authenticity.c b/lib/src/signed_video_authenticity.c
index 6064c86..10bb546 100644
--- a/lib/src/signed_video_authenticity.c
+++ b/lib/src/signed_video_authenticity.c
@@ -226,9 +226,11 @@ update_accumulated_validation(const signed_video_latest_validation_t *latest,
     // Still either pending validation or video has no signature. Update with the result from
     // |latest|.
     accumulated->authenticity = latest->authenticity;
-  } else if (latest->authenticity < accumulated->authenticity) {
+  } else if (latest->authenticity > SV_AUTH_RESULT_SIGNATURE_PRESENT &&
+      latest->authenticity < accumulated->authenticity) {
     // |latest| has validated a worse authenticity compared to what we have validated so far. Update
-    // with this worse result, since that is what should rule the total validation.
+    // with this worse result, since that is what should rule the total validation. Without a
+    // validated result in |latest| there is nothing to update with.
     accumulated->authenticity = latest->authenticity;
   }
 
-- 
2.43.0


From fbffa8a271b353fde30333e8077b9ee2716e500e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:19 +0000
Subject: [PATCH 22/65] fix: do not validate with the hash list of an earlier
 SEI

---
 lib/src/signed_video_h26x_auth.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 35733c0..fef1b4a 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -82,6 +82,8 @@ decode_sei_data(signed_video_t *self, const uint8_t *payload, size_t payload_siz
       self->gop_info->latest_validated_gop + 1);
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
+    // The hash list of an earlier SEI has no meaning if this SEI comes without one.
+    self->gop_info->list_idx = 0;
     SV_THROW_WITH_MSG(tlv_decode(self, payload, payload_size), "Failed decoding SEI payload");
     detect_lost_sei(self);
     // Every SEI is associated with a GOP. If a lost SEI has been detected, and no GOP end has been
-- 
2.43.0


From 9965a5cfcb708df7b9c16f902a68deeca867ce6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:39 +0000
Subject: [PATCH 23/65] fix: handle a SEI without any TLV data as an error

---
 lib/src/legacy/legacy_h26x_auth.c | 2 +-
 lib/src/signed_video_h26x_auth.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index bc21e70..1c89eaa 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -56,7 +56,7 @@ static const char *kLegacyAuthResultValidStr[SV_AUTH_NUM_SIGNED_GOP_VALID_STATES
 static svrc_t
 legacy_decode_sei_data(legacy_sv_t *self, const uint8_t *payload, size_t payload_size)
 {
-  assert(self && payload && (payload_size > 0));
+  assert(self && payload);
   // Get the last GOP counter before updating.
   uint32_t last_gop_number = self->gop_info->global_gop_counter;
   uint32_t exp_gop_number = last_gop_number + 1;
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index fef1b4a..d11c030 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -77,7 +77,7 @@ static const char *kAuthResultValidStr[SV_AUTH_NUM_SIGNED_GOP_VALID_STATES] = {"
 static svrc_t
 decode_sei_data(signed_video_t *self, const uint8_t *payload, size_t payload_size)
 {
-  assert(self && payload && (payload_size > 0));
+  assert(self && payload);
   DEBUG_LOG("SEI payload size = %zu, exp gop number = %u", payload_size,
       self->gop_info->latest_validated_gop + 1);
   svrc_t status = SV_UNKNOWN_FAILURE;
-- 
2.43.0


From cee0e7c48c63e37973812cf2f5a827ebb0150757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:10 +0000
Subject: [PATCH 24/65] fix: do not use the public key of a golden SEI that
 could not be verified

---
 lib/src/signed_video_h26x_auth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index d11c030..8ead056 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -793,6 +793,10 @@ prepare_golden_sei(signed_video_t *self, h26x_nalu_list_item_t *sei)
     self->gop_state.has_sei = true;
     SV_THROW(prepare_for_validation(self));
   SV_CATCH()
+  {
+    // A public key from a golden SEI that could not be verified should not be used.
+    self->has_public_key = false;
+  }
   SV_DONE(status)
 
   return status;
-- 
2.43.0


From ac27cdaf7f14eb28d99d692569132b5337b5c21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:59 +0000
Subject: [PATCH 25/65] fix: do not verify a SEI without signature with the
 signature of an earlier SEI

---
 lib/src/signed_video_h26x_auth.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 8ead056..4a81d74 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -82,8 +82,10 @@ decode_sei_data(signed_video_t *self, const uint8_t *payload, size_t payload_siz
       self->gop_info->latest_validated_gop + 1);
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-    // The hash list of an earlier SEI has no meaning if this SEI comes without one.
+    // The hash list and the signature of an earlier SEI have no meaning if this SEI comes without
+    // them.
     self->gop_info->list_idx = 0;
+    self->verify_data->signature_size = 0;
     SV_THROW_WITH_MSG(tlv_decode(self, payload, payload_size), "Failed decoding SEI payload");
     detect_lost_sei(self);
     // Every SEI is associated with a GOP. If a lost SEI has been detected, and no GOP end has been
-- 
2.43.0


From b764728de0c54e71c7e1c55ff8a798e7178db0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:32 +0000
Subject: [PATCH 26/65] fix: adapt to the signature size when the type of key
 changes

---
 lib/src/signed_video_tlv.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index a1fcd1d..e52d9b1 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -933,16 +933,17 @@ decode_signature(signed_video_t *self, const uint8_t *data, size_t data_size)
     SV_THROW_IF(version == 0, SV_INCOMPATIBLE_VERSION);
     SV_THROW_IF(hash_type < 0 || hash_type >= NUM_HASH_TYPES, SV_AUTHENTICATION_ERROR);
     SV_THROW_IF(max_signature_size < signature_size, SV_AUTHENTICATION_ERROR);
-    if (!*signature_ptr) {
+    // The size of the signatures changes if the type of key changes.
+    if (!*signature_ptr || verify_data->max_signature_size != max_signature_size) {
       verify_data->max_signature_size = 0;
       verify_data->signature_size = 0;
+      free(*signature_ptr);
       // Allocate enough space for future signatures as well, that is, max_signature_size.
       *signature_ptr = malloc(max_signature_size);
       SV_THROW_IF(!*signature_ptr, SV_MEMORY);
       // Set memory size.
       verify_data->max_signature_size = max_signature_size;
     }
-    SV_THROW_IF(verify_data->max_signature_size != max_signature_size, SV_MEMORY);
     memcpy(*signature_ptr, data_ptr, max_signature_size);
     data_ptr += max_signature_size;
 
-- 
2.43.0


From 242cb818665ba6b1ab47d3d8ea2d41b9c5c004d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:46 +0000
Subject: [PATCH 27/65] fix: check the index before reading the next hash in
 the threaded plugin

The loop that moves the input buffer read the element after the last one when
all elements had been in use.
---
 lib/plugins/threaded-signing/plugin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index 53a4ce9..8422d70 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -614,7 +614,7 @@ local_worker_thread(void *user_data)
       // Move the oldest input buffer to end of queue for reuse at a later stage.
       hash_data_t tmp = self->in[0];
       int j = 0;
-      while (self->in[j + 1].hash != NULL && j < MAX_BUFFER_LENGTH - 1) {
+      while (j < MAX_BUFFER_LENGTH - 1 && self->in[j + 1].hash != NULL) {
         self->in[j] = self->in[j + 1];
         j++;
       }
-- 
2.43.0


From d8ec6f1a7bfbb2b8a5bf8327e1031ccd0c141667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:46 +0000
Subject: [PATCH 28/65] fix: free the session data if a local signing thread
 cannot be set up

---
 lib/plugins/threaded-signing/plugin.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index 8422d70..ccdfd88 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -712,6 +712,7 @@ local_setup(const void *private_key, size_t private_key_size)
 
 catch_error:
   free_plugin(self);
+  free(self);
   return NULL;
 }
 
-- 
2.43.0


From 6e4705bf54a2540e9abf4a64949b2c76ab9f9497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:46 +0000
Subject: [PATCH 29/65] fix: refuse hashes of a different size than the signing
 thread is set up for

Sessions sharing a central thread can use different hash algorithms, but there
is only one hash buffer in |sign_data|. A hash of another size than the first
one triggered an assert, or was copied outside the buffer.
---
 lib/plugins/threaded-signing/plugin.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index ccdfd88..9c41ba3 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -245,6 +245,11 @@ sign_hash(threaded_data_t *self, unsigned id, const uint8_t *hash, size_t hash_s
     }
     self->sign_data->hash_size = hash_size;
   }
+  // The |hash_size| has to be the same for all sessions sharing |sign_data|.
+  if (self->sign_data->hash_size != hash_size) {
+    status = SV_NOT_SUPPORTED;
+    goto done;
+  }
 
   if (!self->in[idx].hash) {
     self->in[idx].hash = calloc(1, hash_size);
-- 
2.43.0


From 10a6ce52d9876145f698caf4603e5a7f2d503884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:46 +0000
Subject: [PATCH 30/65] fix: get the oldest signature of the session, not only
 if first in the buffer

With a central thread the sessions share the output buffer. A session that does
not fetch its signatures blocked all other sessions from getting theirs.
---
 lib/plugins/threaded-signing/plugin.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index 9c41ba3..2c8cef3 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -283,8 +283,8 @@ done:
 }
 
 /* If
- *   1. the |id| matches the oldest |out|, and
- *   2. the signature in |out| has been copied to |signature|, or the signing failed
+ *   1. there is an |out| with matching |id|, and
+ *   2. the signature in the oldest such |out| has been copied to |signature|, or the signing failed
  * then returns true, otherwise false. If the signing failed |written_signature_size| is zero and
  * |error| is set.
  * Moves the signatures in |out| forward when the copy is done. */
@@ -309,31 +309,33 @@ get_signature(threaded_data_t *self,
     goto done;
   }
 
-  // Return if there are no signatures in the buffer
-  if (self->out_idx == 0) goto done;
+  // Find the oldest signature that belongs to this session. Signatures of other sessions, not yet
+  // fetched, should not block this one.
+  int idx = 0;
+  while (idx < self->out_idx && self->out[idx].id != id) idx++;
 
-  // Return if next signature belongs to a different session.
-  if (self->out[0].id != id) goto done;
+  // Return if there are no signatures in the buffer for this session.
+  if (idx == self->out_idx) goto done;
 
   *written_signature_size = 0;
-  if (self->out[0].signing_error) {
+  if (self->out[idx].signing_error) {
     // Propagate SV_EXTERNAL_ERROR when signing failed.
     status = SV_EXTERNAL_ERROR;
-  } else if (self->out[0].size > max_signature_size) {
+  } else if (self->out[idx].size > max_signature_size) {
     // There is no room to copy the signature, set status to invalid parameter.
     status = SV_INVALID_PARAMETER;
   } else {
     // Copy the oldest signature
-    memcpy(signature, self->out[0].signature, self->out[0].size);
-    *written_signature_size = self->out[0].size;
+    memcpy(signature, self->out[idx].signature, self->out[idx].size);
+    *written_signature_size = self->out[idx].size;
   }
   // Mark as copied, also if there is no signature to copy. The session has to know that there will
   // be no signature, otherwise it ends up out of sync with the signatures.
   has_copied_signature = true;
   // Move buffer
-  signature_data_t tmp = self->out[0];
+  signature_data_t tmp = self->out[idx];
   reset_signature_buffer(&tmp);
-  int i = 1;
+  int i = idx + 1;
   while (i < MAX_BUFFER_LENGTH) {
     self->out[i - 1] = self->out[i];
     i++;
-- 
2.43.0


From f80801d80f5cc983eefacabfab9d3c38971a7f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:07 +0000
Subject: [PATCH 31/65] fix: do not drop hashes and signatures when the output
 buffer is full

With a central thread all hashes and signatures of the session were silently
flushed when the output buffer was full, while the session still waits for
them, so all signatures that followed ended up in the wrong SEI. With a local
thread signing stopped for good. Signing now waits until there is room for
another signature; when the input buffer is full as well the hash is refused.
---
 lib/plugins/threaded-signing/plugin.c | 38 +++++++++++----------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index 2c8cef3..85335bb 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -23,13 +23,14 @@
  * This signing plugin sets up a worker thread and calls openssl_sign_hash(), from the worker
  * thread, when there is a new hash to sign. To handle several signatures at the same time, the
  * plugin has two buffers. One for incomming hashes and another one for outgoing signatures.
- * The thread is stopped if 1) the out buffer is full, 2) there was a failure in the memory
- * allocation for a new signature or 3) sv_signing_plugin_session_teardown() is called.
+ * No new hash is signed while the out buffer is full. The thread is stopped if 1) there was a
+ * failure in the memory allocation for a new signature or 2) sv_signing_plugin_session_teardown()
+ * is called.
  *
  * If the plugin is initialized, sv_signing_plugin_init(), one single central thread is spawned.
  * Each Signed Video session will then get an id to distiguish between them since they use common
- * input and output buffers. The thread is stopped if 1) the out buffer is full, 2) there was a
- * failure in the memory allocation for a new signature or 3) sv_signing_plugin_exit() is called.
+ * input and output buffers. The thread is stopped if 1) there was a failure in the memory
+ * allocation for a new signature or 2) sv_signing_plugin_exit() is called.
  */
 
 #include <assert.h>
@@ -342,6 +343,8 @@ get_signature(threaded_data_t *self,
   }
   self->out[MAX_BUFFER_LENGTH - 1] = tmp;
   self->out_idx--;
+  // Send a signal that there is room for a new signature.
+  g_cond_signal(&self->cond);
 
 done:
   g_mutex_unlock(&self->mutex);
@@ -453,7 +456,8 @@ central_worker_thread(void *user_data)
   g_cond_signal(&(central.cond));
 
   while (central.is_running) {
-    if (central.in_idx > 0) {
+    // Do not sign a hash if there is no room for the signature.
+    if (central.in_idx > 0 && central.out_idx < MAX_BUFFER_LENGTH) {
       SignedVideoReturnCode status = SV_UNKNOWN_FAILURE;
       // Get the oldest hash from the input buffer
       // Copy the hash to |sign_data| and start signing.
@@ -488,15 +492,6 @@ central_worker_thread(void *user_data)
       }
 
       int idx = central.out_idx;
-      if (idx >= MAX_BUFFER_LENGTH) {
-        // |out| is full. Buffers this long are not supported.
-        // There are no means to signal an error to the signing session. Flush all buffers for this
-        // id and move on.
-        status = SV_NOT_SUPPORTED;
-        buffer_reset(id_in_signing);
-        continue;
-      }
-
       // If not successfully done with signing, set |signing_error| to true to
       // report the error when getting the signature.
       central.out[idx].signing_error = (status != SV_OK);
@@ -522,7 +517,7 @@ central_worker_thread(void *user_data)
       }
       central.out_idx++;
     } else {
-      // Wait for a signal, triggered when it is time to sign a hash.
+      // Wait for a signal, triggered when it is time to sign a hash or a signature was fetched.
       g_cond_wait(&(central.cond), &(central.mutex));
     }
   }
@@ -588,6 +583,8 @@ central_teardown(central_threaded_data_t *self)
   g_mutex_lock(&(central.mutex));
   buffer_reset(self->id);
   delete_item(self->id);
+  // Send a signal that there may be room for new signatures.
+  g_cond_signal(&(central.cond));
   g_mutex_unlock(&(central.mutex));
 
   free(self);
@@ -611,7 +608,8 @@ local_worker_thread(void *user_data)
   g_cond_signal(&self->cond);
 
   while (self->is_running) {
-    if (self->in_idx > 0) {
+    // Do not sign a hash if there is no room for the signature.
+    if (self->in_idx > 0 && self->out_idx < MAX_BUFFER_LENGTH) {
       // Get the oldest hash from the input buffer
       // Copy the hash to |sign_data| and start signing.
       assert(self->in[0].size == self->sign_data->hash_size);
@@ -637,12 +635,6 @@ local_worker_thread(void *user_data)
       self->is_in_signing = false;
 
       int idx = self->out_idx;
-      if (idx >= MAX_BUFFER_LENGTH) {
-        // |out| is full. Buffers this long are not supported.
-        self->is_running = false;
-        free_plugin(self);
-        goto done;
-      }
 
       // If not successfully done with signing, set |signing_error| to true to
       // report the error when getting the signature.
@@ -667,7 +659,7 @@ local_worker_thread(void *user_data)
       }
       self->out_idx++;
     } else {
-      // Wait for a signal, triggered when it is time to sign a hash.
+      // Wait for a signal, triggered when it is time to sign a hash or a signature was fetched.
       g_cond_wait(&self->cond, &self->mutex);
     }
   }
-- 
2.43.0


From 756dda364a3f766a28420c78276d086d4001c40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:47 +0000
Subject: [PATCH 32/65] fix: free the message digest context of the Axis vendor
 handle

The context created when a certificate chain had been verified was never released at teardown.
---
 lib/vendors/axis-communications/sv_vendor_axis_communications.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 7ee6399..74a3c10 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -512,6 +512,7 @@ sv_vendor_axis_communications_teardown(void *handle)
 
   free(self->attestation);
   free(self->certificate_chain);
+  EVP_MD_CTX_free(self->md_ctx);
   X509_free(self->trusted_ca);
   free(self);
 }
-- 
2.43.0


From a15e84fdb45669b3ed3925746320630d624f1e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:47 +0000
Subject: [PATCH 33/65] fix: do not copy a too long serial number outside its
 buffer

The serial number of the attestation certificate was copied without checking its length.
---
 lib/vendors/axis-communications/sv_vendor_axis_communications.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 74a3c10..7e85493 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -258,6 +258,8 @@ verify_and_parse_certificate_chain(sv_vendor_axis_communications_t *self)
     // Found serial number in certificate. Read that entry and convert to UTF8.
     entry_data = X509_NAME_ENTRY_get_data(X509_NAME_get_entry(subject, ser_no_index));
     SV_THROW_IF(ASN1_STRING_to_UTF8(&serial_number_str, entry_data) <= 0, SV_EXTERNAL_ERROR);
+    SV_THROW_IF(
+        strlen((char *)serial_number_str) >= SV_VENDOR_AXIS_SER_NO_MAX_LENGTH, SV_VENDOR_ERROR);
     // Copy only if necessary.
     if (strcmp(self->supplemental_authenticity.serial_number, (char *)serial_number_str)) {
       memset(self->supplemental_authenticity.serial_number, 0, SV_VENDOR_AXIS_SER_NO_MAX_LENGTH);
-- 
2.43.0


From f368656b49016e840301e361c3c20d508388b701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:58 +0000
Subject: [PATCH 34/65] fix: always hand the decoded public key to the Axis
 vendor handle

The key object is replaced every time a public key is decoded, but the vendor handle kept the old,
freed, one if the validation of the key had failed or the manufacturer had changed in between.
Further, when the public key was set by the user and the first SEI was decoded only once, the vendor
handle got no key at all, since the public key precedes the product information, and the SEI could
not be validated.
---
 lib/src/legacy/legacy_tlv.c                         | 11 ++++++-----
 lib/src/signed_video_tlv.c                          | 13 ++++++++-----
 .../sv_vendor_axis_communications.c                 |  2 ++
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index 1bcce41..a3cd092 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -381,13 +381,14 @@ legacy_decode_public_key(legacy_sv_t *self, const uint8_t *data, size_t data_siz
     SV_THROW(openssl_public_key_malloc(self->verify_data, &self->pem_public_key));
 
 #ifdef SV_VENDOR_AXIS_COMMUNICATIONS
-    // If "Axis Communications AB" can be identified from the |product_info|, set |public_key| to
-    // |vendor_handle|.
+    // Set |public_key| to |vendor_handle|. The previous key has been freed, and the |product_info| may
+    // not have been decoded yet. A failure only matters if "Axis Communications AB" can be identified
+    // from the |product_info|.
+    const svrc_t vendor_status = set_axis_communications_public_key(self->vendor_handle,
+        self->verify_data->key, self->latest_validation->public_key_has_changed);
     if (self->product_info->manufacturer &&
         strcmp(self->product_info->manufacturer, "Axis Communications AB") == 0) {
-      // Set public key.
-      SV_THROW(set_axis_communications_public_key(self->vendor_handle, self->verify_data->key,
-          self->latest_validation->public_key_has_changed));
+      SV_THROW(vendor_status);
     }
 #endif
 
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index e52d9b1..a16dcfb 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -744,13 +744,16 @@ decode_public_key(signed_video_t *self, const uint8_t *data, size_t data_size)
     self->has_public_key = true;
 
 #ifdef SV_VENDOR_AXIS_COMMUNICATIONS
-    // If "Axis Communications AB" can be identified from the |product_info|, set |public_key| to
-    // |vendor_handle|.
+    // Set |public_key| to |vendor_handle|. The previous key has been freed, and the |product_info| may
+    // not have been decoded yet. A failure only matters if "Axis Communications AB" can be identified
+    // from the |product_info|.
+    const bool key_has_changed =
+        self->latest_validation && self->latest_validation->public_key_has_changed;
+    const svrc_t vendor_status = set_axis_communications_public_key(
+        self->vendor_handle, self->verify_data->key, key_has_changed);
     if (self->product_info->manufacturer &&
         strcmp(self->product_info->manufacturer, "Axis Communications AB") == 0) {
-      // Set public key.
-      SV_THROW(set_axis_communications_public_key(self->vendor_handle, self->verify_data->key,
-          self->latest_validation->public_key_has_changed));
+      SV_THROW(vendor_status);
     }
 #endif
 
diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 7e85493..1786170 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -687,6 +687,8 @@ set_axis_communications_public_key(void *handle,
 
   // If the Public key previously has been validated unsuccessful, skip checking type and size.
   if (self->supplemental_authenticity.public_key_validation == 0) {
+    // The previous public key has been freed and should not be used anymore.
+    self->public_key = public_key;
     return SV_OK;
   }
 
-- 
2.43.0


From 9041706a9bf09c873a8677f967a6ba45fd51819d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:58 +0000
Subject: [PATCH 35/65] fix: do not report the public key as validated for
 another manufacturer

The result of an earlier validation was kept when the manufacturer of the stream was changed.
---
 lib/src/legacy/legacy_h26x_auth.c | 3 +++
 lib/src/signed_video_h26x_auth.c  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 1c89eaa..69c8348 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -751,6 +751,9 @@ legacy_prepare_for_validation(legacy_sv_t *self)
             break;
         }
       }
+    } else {
+      // Only public keys from Axis can be validated.
+      self->latest_validation->public_key_validation = SV_PUBKEY_VALIDATION_NOT_FEASIBLE;
     }
 #endif
 
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 4a81d74..392652b 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -876,6 +876,9 @@ prepare_for_validation(signed_video_t *self)
             break;
         }
       }
+    } else {
+      // Only public keys from Axis can be validated.
+      self->latest_validation->public_key_validation = SV_PUBKEY_VALIDATION_NOT_FEASIBLE;
     }
 #endif
 
-- 
2.43.0


From 80f465aa49d1e7701810f752fb4205c1ec1d4e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:58 +0000
Subject: [PATCH 36/65] fix: report the public key validation as not feasible
 without attestation

A stream from an Axis camera without an attestation, or without the public key, could not be
validated at all.
---
 lib/src/legacy/legacy_h26x_auth.c                          | 5 ++++-
 lib/src/signed_video_h26x_auth.c                           | 5 ++++-
 .../axis-communications/sv_vendor_axis_communications.c    | 7 +++++++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 69c8348..84e8e3c 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -734,7 +734,10 @@ legacy_prepare_for_validation(legacy_sv_t *self)
       sv_vendor_axis_supplemental_authenticity_t *supplemental_authenticity = NULL;
       SV_THROW(get_axis_communications_supplemental_authenticity(
           self->vendor_handle, &supplemental_authenticity));
-      if (strcmp(self->product_info->serial_number, supplemental_authenticity->serial_number)) {
+      if (supplemental_authenticity->public_key_validation == -1) {
+        self->latest_validation->public_key_validation = SV_PUBKEY_VALIDATION_NOT_FEASIBLE;
+      } else if (strcmp(
+                     self->product_info->serial_number, supplemental_authenticity->serial_number)) {
         self->latest_validation->public_key_validation = SV_PUBKEY_VALIDATION_NOT_OK;
       } else {
         // Convert to SignedVideoPublicKeyValidation
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 392652b..0b93de8 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -859,7 +859,10 @@ prepare_for_validation(signed_video_t *self)
       sv_vendor_axis_supplemental_authenticity_t *supplemental_authenticity = NULL;
       SV_THROW(get_axis_communications_supplemental_authenticity(
           self->vendor_handle, &supplemental_authenticity));
-      if (strcmp(self->product_info->serial_number, supplemental_authenticity->serial_number)) {
+      if (supplemental_authenticity->public_key_validation == -1) {
+        self->latest_validation->public_key_validation = SV_PUBKEY_VALIDATION_NOT_FEASIBLE;
+      } else if (strcmp(
+                     self->product_info->serial_number, supplemental_authenticity->serial_number)) {
         self->latest_validation->public_key_validation = SV_PUBKEY_VALIDATION_NOT_OK;
       } else {
         // Convert to SignedVideoPublicKeyValidation
diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 1786170..ed136ba 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -737,6 +737,13 @@ get_axis_communications_supplemental_authenticity(void *handle,
 
   sv_vendor_axis_communications_t *self = (sv_vendor_axis_communications_t *)handle;
 
+  // There are no means to validate the public key without an attestation, or if the public key was not
+  // part of the stream.
+  if (!self->attestation || !self->certificate_chain || !self->public_key) {
+    *supplemental_authenticity = &self->supplemental_authenticity;
+    return SV_OK;
+  }
+
   // TODO: Fill in the skeleton below step by step.
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-- 
2.43.0


From 2d74d8aedb454d9948c4caf6a4638e0be95912a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:19 +0000
Subject: [PATCH 37/65] fix: let a later attestation replace one that has not
 been successfully used

The attestation and certificate chain of the first SEI were kept for the entire session, and all SEIs
with different ones were refused. If the first ones were altered on the way, no later SEI could be
decoded.
---
 .../axis-communications/sv_vendor_axis_communications.c  | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index ed136ba..0be8cfe 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -623,6 +623,15 @@ decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data
     SV_THROW_IF(attestation_size == 0, SV_NOT_SUPPORTED);
     // There has to be a |certificate_chain| after the |attestation|.
     SV_THROW_IF(data_size <= (size_t)attestation_size + 2, SV_AUTHENTICATION_ERROR);
+    // An |attestation| or |certificate_chain| that has not been successfully used may have been altered
+    // on its way and should not prevent decoding later ones.
+    if (self->supplemental_authenticity.public_key_validation != 1) {
+      free(self->attestation);
+      self->attestation = NULL;
+      self->attestation_size = 0;
+      free(self->certificate_chain);
+      self->certificate_chain = NULL;
+    }
     // Allocate memory for |attestation|.
     if (!self->attestation) {
       self->attestation = malloc(attestation_size);
-- 
2.43.0


From a00bd9013669e0e51d4057f64acf5f9d8f25c199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:19 +0000
Subject: [PATCH 38/65] fix: report an attestation with a malformed signature
 as not valid

It was treated as an error in the validator, hence the video could not be validated.
---
 .../axis-communications/sv_vendor_axis_communications.c        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 0be8cfe..d960f37 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -459,7 +459,8 @@ verify_axis_communications_public_key(sv_vendor_axis_communications_t *self)
     verified_signature = EVP_DigestVerify(self->md_ctx,
         self->attestation_report.attestation_list.signature,
         self->attestation_report.attestation_list.signature_size, signed_data, SIGNED_DATA_SIZE);
-    SV_THROW_IF(verified_signature < 0, SV_EXTERNAL_ERROR);
+    // A signature that cannot be parsed is not a valid one.
+    SV_THROW_IF(verified_signature < 0, SV_VENDOR_ERROR);
 
     // If verification fails (is 0) the result should never be overwritten with success (1) later.
     self->supplemental_authenticity.public_key_validation &= verified_signature;
-- 
2.43.0


From de57b93766ef466c77017e92b9f9999d64875e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:55 +0000
Subject: [PATCH 39/65] fix: report a private key file that could not be
 completely written

A private key is smaller than the buffer of the file, hence it is written when the file is closed. The
result of that was ignored, and on a full disk an empty or incomplete file was left behind and success
was reported.
---
 lib/src/signed_video_openssl.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index e2923d0..9c2ab67 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -593,12 +593,11 @@ write_private_key_to_file(EVP_PKEY *pkey, const char *path_to_key)
     SV_THROW_IF(!f_private, SV_EXTERNAL_ERROR);
     SV_THROW_IF(!PEM_write_PrivateKey(f_private, pkey, NULL, 0, 0, NULL, NULL), SV_EXTERNAL_ERROR);
   SV_CATCH()
-  {
-    if (f_private) unlink(path_to_key);
-  }
   SV_DONE(status)
 
-  if (f_private) fclose(f_private);
+  // Buffered data is written when closing the file, hence if that fails the key is incomplete.
+  if (f_private && fclose(f_private) != 0 && status == SV_OK) status = SV_EXTERNAL_ERROR;
+  if (f_private && status != SV_OK) unlink(path_to_key);
 
   return status;
 }
-- 
2.43.0


From fcf77815a00fedd7912086e4a852564ff60b89e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:55 +0000
Subject: [PATCH 40/65] fix: do not report success if the path to the private
 key could not be created

The key was generated but not stored.
---
 lib/src/signed_video_openssl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 9c2ab67..78ab767 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -708,6 +708,7 @@ signed_video_generate_ecdsa_private_key(const char *dir_to_key,
   char *full_path_to_private_key = NULL;
   if (dir_to_key) {
     full_path_to_private_key = get_path_to_key(dir_to_key, PRIVATE_ECDSA_KEY_FILE);
+    if (!full_path_to_private_key) return SV_MEMORY;
   }
 
   svrc_t status = create_ecdsa_private_key(full_path_to_private_key, &pem_key);
@@ -734,6 +735,7 @@ signed_video_generate_rsa_private_key(const char *dir_to_key,
   char *full_path_to_private_key = NULL;
   if (dir_to_key) {
     full_path_to_private_key = get_path_to_key(dir_to_key, PRIVATE_RSA_KEY_FILE);
+    if (!full_path_to_private_key) return SV_MEMORY;
   }
 
   svrc_t status = create_rsa_private_key(full_path_to_private_key, &pem_key);
-- 
2.43.0


From a2f409abfa02a4028882ceff61498f20b986594b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:55 +0000
Subject: [PATCH 41/65] fix: do not read before the path to the private key if
 it is empty

---
 lib/src/signed_video_openssl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 78ab767..1bdded9 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -691,7 +691,7 @@ get_path_to_key(const char *dir_to_key, const char *key_filename)
 
   strcpy(str, dir_to_key);
   // Add '/' if not exists
-  if (dir_to_key[path_len - 1] != '/') strcat(str, "/");
+  if (path_len > 0 && dir_to_key[path_len - 1] != '/') strcat(str, "/");
   strcat(str, key_filename);
 
   return str;
-- 
2.43.0


From dcff128608d78c529fd50b4b8ae372bfdb27a768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:12 +0000
Subject: [PATCH 42/65] fix: copy the NAL unit and not an appended missing item
 in the legacy NAL unit list

---
 lib/src/legacy/legacy_h26x_nalu_list.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/legacy/legacy_h26x_nalu_list.c b/lib/src/legacy/legacy_h26x_nalu_list.c
index 57d343e..f2c66a7 100644
--- a/lib/src/legacy/legacy_h26x_nalu_list.c
+++ b/lib/src/legacy/legacy_h26x_nalu_list.c
@@ -258,6 +258,8 @@ legacy_h26x_nalu_list_copy_last_item(legacy_h26x_nalu_list_t *list)
   legacy_h26x_nalu_t *copied_nalu = NULL;
   uint8_t *nalu_data_wo_epb = NULL;
   legacy_h26x_nalu_list_item_t *item = list->last_item;
+  // The validation may have appended missing items, which have no |nalu|, to the list.
+  while (item && !item->nalu && item->prev) item = item->prev;
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-- 
2.43.0


From 1967df8eba32e78fc239711b8c60e60bf423dbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:08 +0000
Subject: [PATCH 43/65] fix: start over with any stream format after a reset

---
 lib/src/signed_video_h26x_common.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index 2b7c85b..a08c3f9 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -1232,7 +1232,9 @@ signed_video_reset(signed_video_t *self)
     SV_THROW_IF(!self, SV_INVALID_PARAMETER);
     DEBUG_LOG("Resetting signed session");
     // Reset session states
-    SV_THROW(legacy_sv_reset(self->legacy_sv));
+    // The legacy validation is created again if the first SEI after the reset asks for it.
+    legacy_sv_free(self->legacy_sv);
+    self->legacy_sv = NULL;
     self->signing_started = false;
     self->sei_generation_enabled = false;
     gop_info_reset(self->gop_info);
-- 
2.43.0


From daf01772de5980314659d99cd7bc0c4c7601ec39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:14 +0000
Subject: [PATCH 44/65] fix: free the arbitrary data decoded by the legacy
 validation

---
 lib/src/legacy/legacy_h26x_common.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/legacy/legacy_h26x_common.c b/lib/src/legacy/legacy_h26x_common.c
index 17c15da..aa3fcb0 100644
--- a/lib/src/legacy/legacy_h26x_common.c
+++ b/lib/src/legacy/legacy_h26x_common.c
@@ -974,6 +974,7 @@ legacy_sv_free(legacy_sv_t *self)
 
   free(self->gop_info);
   free(self->pem_public_key.key);
+  free(self->arbitrary_data);
 
   free(self);
 }
-- 
2.43.0


From 2cede2f114f00e0b4ec861a772f8b9d9e02fe5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:12 +0000
Subject: [PATCH 45/65] fix: free the arbitrary data of a session

---
 lib/src/signed_video_h26x_common.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index a08c3f9..a6b77e2 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -1288,6 +1288,7 @@ signed_video_free(signed_video_t *self)
   sign_or_verify_data_free(self->sign_data);
   sign_or_verify_data_free(self->verify_data);
   free(self->pem_public_key.key);
+  free(self->arbitrary_data);
 
   free(self);
 }
-- 
2.43.0


From 32458125db12dbd348e118a6421fa26e8411a291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:12 +0000
Subject: [PATCH 46/65] fix: replace the private key of a session without
 leaking or losing the signature buffer

---
 lib/src/signed_video_h26x_sign.c |  7 +++++--
 lib/src/signed_video_openssl.c   | 13 +++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 7affe66..95540f1 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -864,8 +864,11 @@ signed_video_set_private_key_new(signed_video_t *self,
     SV_THROW(openssl_private_key_malloc(self->sign_data, private_key, private_key_size));
     SV_THROW(openssl_read_pubkey_from_private_key(self->sign_data, &self->pem_public_key));
 
-    self->plugin_handle = sv_signing_plugin_session_setup(private_key, private_key_size);
-    SV_THROW_IF(!self->plugin_handle, SV_EXTERNAL_ERROR);
+    void *plugin_handle = sv_signing_plugin_session_setup(private_key, private_key_size);
+    SV_THROW_IF(!plugin_handle, SV_EXTERNAL_ERROR);
+    // Replace any existing signing session.
+    sv_signing_plugin_session_teardown(self->plugin_handle);
+    self->plugin_handle = plugin_handle;
   SV_CATCH()
   SV_DONE(status)
 
diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 1bdded9..2f754cd 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -102,6 +102,7 @@ openssl_private_key_malloc(sign_or_verify_data_t *sign_data,
 
   EVP_PKEY_CTX *ctx = NULL;
   EVP_PKEY *signing_key = NULL;
+  uint8_t *signature = NULL;
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
@@ -114,8 +115,8 @@ openssl_private_key_malloc(sign_or_verify_data_t *sign_data,
     // Read the maximum size of the signature that the |private_key| can generate
     size_t max_signature_size = EVP_PKEY_size(signing_key);
     SV_THROW_IF(max_signature_size == 0, SV_EXTERNAL_ERROR);
-    sign_data->signature = malloc(max_signature_size);
-    SV_THROW_IF(!sign_data->signature, SV_MEMORY);
+    signature = malloc(max_signature_size);
+    SV_THROW_IF(!signature, SV_MEMORY);
     // Create a context from the |signing_key|
     ctx = EVP_PKEY_CTX_new(signing_key, NULL /* no engine */);
     SV_THROW_IF(!ctx, SV_EXTERNAL_ERROR);
@@ -128,13 +129,17 @@ openssl_private_key_malloc(sign_or_verify_data_t *sign_data,
       SV_THROW_IF(EVP_PKEY_CTX_set_signature_md(ctx, EVP_sha256()) <= 0, SV_EXTERNAL_ERROR);
     }
 
+    // Free any existing key and signature
+    EVP_PKEY_CTX_free(sign_data->key);
+    free(sign_data->signature);
     // Set the content in |sign_data|
+    sign_data->signature = signature;
+    sign_data->signature_size = 0;
     sign_data->max_signature_size = max_signature_size;
     sign_data->key = ctx;
   SV_CATCH()
   {
-    free(sign_data->signature);
-    sign_data->signature = NULL;
+    free(signature);
     EVP_PKEY_CTX_free(ctx);
     ctx = NULL;
   }
-- 
2.43.0


From a8e692cd06671d5c275de4cdb383fac368ddf214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:12 +0000
Subject: [PATCH 47/65] fix: forget a public key that could not be read

---
 lib/src/signed_video_h26x_auth.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 0b93de8..7d9dd3d 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1333,6 +1333,12 @@ signed_video_set_public_key(signed_video_t *self, const char *public_key, size_t
     self->has_public_key = true;
 
   SV_CATCH()
+  {
+    // A key that cannot be read should not prevent setting another one.
+    free(self->pem_public_key.key);
+    self->pem_public_key.key = NULL;
+    self->pem_public_key.key_size = 0;
+  }
   SV_DONE(status)
 
   return status;
-- 
2.43.0


From e765c0ab1b34953004884d0d0c20ec4afa9900ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:12 +0000
Subject: [PATCH 48/65] fix: free the object of a hash algorithm set by its OID

---
 lib/src/signed_video_openssl.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 2f754cd..84801a2 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -456,9 +456,11 @@ openssl_set_hash_algo(void *handle, const char *name_or_oid)
     name_or_oid = DEFAULT_HASH_ALGO;
   }
 
+  ASN1_OBJECT *hash_algo_obj = NULL;
+
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-    ASN1_OBJECT *hash_algo_obj = OBJ_txt2obj(name_or_oid, 0 /* Accept both name and OID */);
+    hash_algo_obj = OBJ_txt2obj(name_or_oid, 0 /* Accept both name and OID */);
     SV_THROW_IF_WITH_MSG(!hash_algo_obj, SV_INVALID_PARAMETER,
         "Could not identify hashing algorithm: %s", name_or_oid);
     SV_THROW(obj_to_oid_and_type(&self->hash_algo, hash_algo_obj));
@@ -474,6 +476,8 @@ openssl_set_hash_algo(void *handle, const char *name_or_oid)
   SV_CATCH()
   SV_DONE(status)
 
+  ASN1_OBJECT_free(hash_algo_obj);
+
   return status;
 }
 
-- 
2.43.0


From f6d599f4f65a3541807c8847b909ef34e9953e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:12 +0000
Subject: [PATCH 49/65] fix: free a surplus certificate of the vendor
 certificate chain

---
 lib/vendors/axis-communications/sv_vendor_axis_communications.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index d960f37..8be37a8 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -227,6 +227,8 @@ verify_and_parse_certificate_chain(sv_vendor_axis_communications_t *self)
       // Get the next certificate.
       certificate = PEM_read_bio_X509(stackbio, NULL, NULL, NULL);
     }
+    // A certificate beyond the maximum number of certificates is not part of the stack.
+    X509_free(certificate);
     SV_THROW_IF(num_certificates > NUM_UNTRUSTED_CERTIFICATES, SV_VENDOR_ERROR);
 
     SV_THROW(verify_certificate_chain(self->trusted_ca, untrusted_certificates));
-- 
2.43.0


From c2ade65492aeecb39e9f5114fe4ab468659c9528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:21 +0000
Subject: [PATCH 50/65] fix: count the items once when adding missing NAL units
 to the list

---
 lib/src/legacy/legacy_h26x_nalu_list.c | 3 ++-
 lib/src/signed_video_h26x_nalu_list.c  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_nalu_list.c b/lib/src/legacy/legacy_h26x_nalu_list.c
index f2c66a7..f668476 100644
--- a/lib/src/legacy/legacy_h26x_nalu_list.c
+++ b/lib/src/legacy/legacy_h26x_nalu_list.c
@@ -319,12 +319,13 @@ legacy_h26x_nalu_list_add_missing(legacy_h26x_nalu_list_t *list,
       } else {
         legacy_h26x_nalu_list_item_prepend_item(item, missing_nalu);
       }
-      legacy_h26x_nalu_list_refresh(list);
     }
 
   SV_CATCH()
   SV_DONE(status)
 
+  // The number of missing NALUs can be large; hence, refresh the |list| once.
+  if (added_items > 0) legacy_h26x_nalu_list_refresh(list);
   if (added_items > 0) DEBUG_LOG("Added %d missing NALU items to list", added_items);
 
   return status;
diff --git a/lib/src/signed_video_h26x_nalu_list.c b/lib/src/signed_video_h26x_nalu_list.c
index 1e644d2..005067c 100644
--- a/lib/src/signed_video_h26x_nalu_list.c
+++ b/lib/src/signed_video_h26x_nalu_list.c
@@ -399,12 +399,13 @@ h26x_nalu_list_add_missing(h26x_nalu_list_t *list,
       } else {
         h26x_nalu_list_item_prepend_item(item, missing_nalu);
       }
-      h26x_nalu_list_refresh(list);
     }
 
   SV_CATCH()
   SV_DONE(status)
 
+  // The number of missing NALUs can be large; hence, refresh the |list| once.
+  if (added_items > 0) h26x_nalu_list_refresh(list);
   if (added_items > 0) DEBUG_LOG("Added %d missing NALU items to list", added_items);
 
   return status;
-- 
2.43.0


From 9f4282a4577008c8688dec400c7ae374277163bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:13 +0000
Subject: [PATCH 51/65] fix: remove items from the NAL unit list in constant
 time

---
 lib/src/legacy/legacy_h26x_nalu_list.c | 5 ++---
 lib/src/signed_video_h26x_nalu_list.c  | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_nalu_list.c b/lib/src/legacy/legacy_h26x_nalu_list.c
index f668476..d4d4d9d 100644
--- a/lib/src/legacy/legacy_h26x_nalu_list.c
+++ b/lib/src/legacy/legacy_h26x_nalu_list.c
@@ -144,11 +144,10 @@ legacy_h26x_nalu_list_remove_and_free_item(legacy_h26x_nalu_list_t *list,
   if (item->prev) item->prev->next = item->next;
   if (item->next) item->next->prev = item->prev;
 
-  // Fix the broken list. To use legacy_h26x_nalu_list_refresh(), first_item needs to be part of the
-  // list. If |item_to_remove| was that first_item, we need to set a new one.
+  // Fix the broken list. If |item_to_remove| was its first or last item, we need to set a new one.
   if (list->first_item == item) list->first_item = item->next;
   if (list->last_item == item) list->last_item = item->prev;
-  legacy_h26x_nalu_list_refresh(list);
+  list->num_items--;
 
   legacy_h26x_nalu_list_item_free(item);
 }
diff --git a/lib/src/signed_video_h26x_nalu_list.c b/lib/src/signed_video_h26x_nalu_list.c
index 005067c..bedec2e 100644
--- a/lib/src/signed_video_h26x_nalu_list.c
+++ b/lib/src/signed_video_h26x_nalu_list.c
@@ -197,11 +197,10 @@ h26x_nalu_list_remove_and_free_item(h26x_nalu_list_t *list,
   if (item->prev) item->prev->next = item->next;
   if (item->next) item->next->prev = item->prev;
 
-  // Fix the broken list. To use h26x_nalu_list_refresh(), first_item needs to be part of the list.
-  // If |item_to_remove| was that first_item, we need to set a new one.
+  // Fix the broken list. If |item_to_remove| was its first or last item, we need to set a new one.
   if (list->first_item == item) list->first_item = item->next;
   if (list->last_item == item) list->last_item = item->prev;
-  h26x_nalu_list_refresh(list);
+  list->num_items--;
 
   h26x_nalu_list_item_free(item);
 }
-- 
2.43.0


From 92fc31b1341cdf9d0c2342b17c0e2785959f89bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:23 +0000
Subject: [PATCH 52/65] fix: free of a session that could not be created

---
 lib/src/signed_video_h26x_common.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index a6b77e2..3ce0d91 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -1186,6 +1186,7 @@ signed_video_create(SignedVideoCodec codec)
     self->sei_epb = true;
     self->signing_started = false;
     self->sign_data = sign_or_verify_data_create();
+    SV_THROW_IF(!self->sign_data, SV_MEMORY);
     self->sign_data->hash_size = openssl_get_hash_size(self->crypto_handle);
     // Make sure the hash size matches the default hash size.
     SV_THROW_IF(self->sign_data->hash_size != DEFAULT_HASH_SIZE, SV_EXTERNAL_ERROR);
@@ -1211,6 +1212,7 @@ signed_video_create(SignedVideoCodec codec)
     self->has_public_key = false;
 
     self->verify_data = sign_or_verify_data_create();
+    SV_THROW_IF(!self->verify_data, SV_MEMORY);
     self->verify_data->hash_size = openssl_get_hash_size(self->crypto_handle);
   SV_CATCH()
   {
-- 
2.43.0


From e6619732520c432217db0fa756ba3c3d9e976fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:23 +0000
Subject: [PATCH 53/65] fix: NAL unit that could not be added or copied to the
 list

---
 lib/src/legacy/legacy_h26x_auth.c      | 14 +++++++++-----
 lib/src/legacy/legacy_h26x_nalu_list.c |  3 ++-
 lib/src/signed_video_h26x_auth.c       | 24 +++++++++++++++++-------
 lib/src/signed_video_h26x_nalu_list.c  |  6 ++++--
 4 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 84e8e3c..43fac4a 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -1023,11 +1023,13 @@ legacy_sv_add_h26x_nalu(legacy_sv_t *self, const uint8_t *nalu_data, size_t nalu
 
   self->accumulated_validation->number_of_received_nalus++;
 
+  bool appended = false;
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     // Append the |nalu_list| with a new item holding a pointer to |nalu|. The |validation_status|
     // is set accordingly.
     SV_THROW(legacy_h26x_nalu_list_append(nalu_list, &nalu));
+    appended = true;
     SV_THROW_IF(nalu.is_valid < 0, SV_UNKNOWN_FAILURE);
     legacy_update_validation_flags(&self->validation_flags, &nalu);
     SV_THROW(legacy_register_nalu(self, nalu_list->last_item));
@@ -1035,11 +1037,13 @@ legacy_sv_add_h26x_nalu(legacy_sv_t *self, const uint8_t *nalu_data, size_t nalu
   SV_CATCH()
   SV_DONE(status)
 
-  // Need to make a copy of the |nalu| independently of failure.
-  svrc_t copy_nalu_status = legacy_h26x_nalu_list_copy_last_item(nalu_list);
-  // Make sure to return the first failure if both operations failed.
-  status = (status == SV_OK) ? copy_nalu_status : status;
-  if (status != SV_OK) nalu_list->last_item->validation_status = 'E';
+  // Need to make a copy of the |nalu|, if it became a part of the list, independently of failure.
+  if (appended) {
+    svrc_t copy_nalu_status = legacy_h26x_nalu_list_copy_last_item(nalu_list);
+    // Make sure to return the first failure if both operations failed.
+    status = (status == SV_OK) ? copy_nalu_status : status;
+    if (status != SV_OK) nalu_list->last_item->validation_status = 'E';
+  }
 
   free(nalu.nalu_data_wo_epb);
 
diff --git a/lib/src/legacy/legacy_h26x_nalu_list.c b/lib/src/legacy/legacy_h26x_nalu_list.c
index d4d4d9d..a1605e2 100644
--- a/lib/src/legacy/legacy_h26x_nalu_list.c
+++ b/lib/src/legacy/legacy_h26x_nalu_list.c
@@ -262,7 +262,7 @@ legacy_h26x_nalu_list_copy_last_item(legacy_h26x_nalu_list_t *list)
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-    SV_THROW_IF(!item->nalu, SV_UNKNOWN_FAILURE);
+    SV_THROW_IF(!item || !item->nalu, SV_UNKNOWN_FAILURE);
     copied_nalu = malloc(sizeof(legacy_h26x_nalu_t));
     SV_THROW_IF(!copied_nalu, SV_MEMORY);
     if (item->nalu->tlv_data) {
@@ -281,6 +281,7 @@ legacy_h26x_nalu_list_copy_last_item(legacy_h26x_nalu_list_t *list)
   }
   SV_DONE(status)
 
+  if (!item) return status;
   if (item->taken_ownership_of_nalu) {
     // We have taken ownership of the existing |nalu|, hence we need to free it when releasing it.
     // NOTE: This should not happen if the list is used properly.
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 7d9dd3d..3dba22a 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1191,6 +1191,11 @@ reregister_nalus(signed_video_t *self)
       // Pass in all, but the last one (the SEI), to the created legacy session. Do this
       // without requesting an authenticity report.
       if (item != nalu_list->last_item) {
+        // The |nalu| could not be copied when it was added.
+        if (!item->nalu) {
+          item = item->next;
+          continue;
+        }
         status = legacy_sv_add_nalu_and_authenticate(
             self->legacy_sv, item->nalu->nalu_data, item->nalu->nalu_data_size, NULL);
         if (status != SV_OK) {
@@ -1202,7 +1207,8 @@ reregister_nalus(signed_video_t *self)
       item = item->next;
       continue;
     }
-    if (item->nalu->is_valid <= 0) {
+    // The |nalu| could not be copied when it was added.
+    if (!item->nalu || item->nalu->is_valid <= 0) {
       item = item->next;
       continue;
     }
@@ -1236,6 +1242,7 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
 
   self->accumulated_validation->number_of_received_nalus++;
 
+  bool appended = false;
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     // If there is no |nalu_list| we failed allocating memory for it.
@@ -1244,6 +1251,7 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
     // Append the |nalu_list| with a new item holding a pointer to |nalu|. The |validation_status|
     // is set accordingly.
     SV_THROW(h26x_nalu_list_append(nalu_list, &nalu));
+    appended = true;
     SV_THROW_IF(nalu.is_valid < 0, SV_UNKNOWN_FAILURE);
     update_validation_flags(&self->validation_flags, &nalu);
     SV_THROW(register_nalu(self, nalu_list->last_item));
@@ -1271,12 +1279,14 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
   SV_CATCH()
   SV_DONE(status)
 
-  // Need to make a copy of the |nalu| independently of failure.
-  svrc_t copy_nalu_status =
-      h26x_nalu_list_copy_last_item(nalu_list, self->validation_flags.hash_algo_known);
-  // Make sure to return the first failure if both operations failed.
-  status = (status == SV_OK) ? copy_nalu_status : status;
-  if (status != SV_OK) nalu_list->last_item->validation_status = 'E';
+  // Need to make a copy of the |nalu|, if it became a part of the list, independently of failure.
+  if (appended) {
+    svrc_t copy_nalu_status =
+        h26x_nalu_list_copy_last_item(nalu_list, self->validation_flags.hash_algo_known);
+    // Make sure to return the first failure if both operations failed.
+    status = (status == SV_OK) ? copy_nalu_status : status;
+    if (status != SV_OK) nalu_list->last_item->validation_status = 'E';
+  }
 
   free(nalu.nalu_data_wo_epb);
 
diff --git a/lib/src/signed_video_h26x_nalu_list.c b/lib/src/signed_video_h26x_nalu_list.c
index bedec2e..bd34241 100644
--- a/lib/src/signed_video_h26x_nalu_list.c
+++ b/lib/src/signed_video_h26x_nalu_list.c
@@ -315,9 +315,10 @@ h26x_nalu_list_copy_last_item(h26x_nalu_list_t *list, bool hash_algo_known)
    * a valid NALU. If a NALU is missing, it cannot be copied, as there is nothing to copy.
    * The previous NALUs are checked until a valid one is found. This ensures that a NALU
    * that actually exists is used before attempting to make a copy. */
-  while (!(item->nalu)) {
+  while (item && !(item->nalu)) {
     item = item->prev;
   }
+  if (!item) return SV_UNKNOWN_FAILURE;
   // The |hashable_data| of a SEI hashed without emulation prevention bytes is not a part of the
   // |nalu_data|, but of the memory from which the emulation prevention bytes have been removed.
   const bool is_separate_data = item->nalu->hashable_data &&
@@ -355,7 +356,8 @@ h26x_nalu_list_copy_last_item(h26x_nalu_list_t *list, bool hash_algo_known)
     copied_nalu->hashable_data = hashable_data;
   SV_CATCH()
   {
-    free(nalu_data_wo_epb);  // At this point, nalu_data_wo_epb is actually NULL.
+    free(nalu_data);
+    free(nalu_data_wo_epb);
     free(copied_nalu);
     copied_nalu = NULL;
   }
-- 
2.43.0


From aa5cd234cef4e4053aa265d9027571959e89cd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:23 +0000
Subject: [PATCH 54/65] fix: authenticity report without version strings

---
 lib/src/signed_video_authenticity.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/signed_video_authenticity.c b/lib/src/signed_video_authenticity.c
index 10bb546..d239bb3 100644
--- a/lib/src/signed_video_authenticity.c
+++ b/lib/src/signed_video_authenticity.c
@@ -382,6 +382,10 @@ signed_video_authenticity_report_create()
   if (!auth) return NULL;
 
   authenticity_report_init(auth);
+  if (!auth->version_on_signing_side || !auth->this_version) {
+    signed_video_authenticity_report_free(auth);
+    return NULL;
+  }
 
   return auth;
 }
-- 
2.43.0


From 4b1580e653957e21e8fe5a6dd233382cafc0a7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:23 +0000
Subject: [PATCH 55/65] fix: check that a key could be read into memory

---
 lib/src/signed_video_openssl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 84801a2..e281d2c 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -108,6 +108,7 @@ openssl_private_key_malloc(sign_or_verify_data_t *sign_data,
   SV_TRY()
     // Read private key
     BIO *bp = BIO_new_mem_buf(private_key, private_key_size);
+    SV_THROW_IF(!bp, SV_EXTERNAL_ERROR);
     signing_key = PEM_read_bio_PrivateKey(bp, NULL, NULL, NULL);
     BIO_free(bp);
     SV_THROW_IF(!signing_key, SV_EXTERNAL_ERROR);
@@ -170,6 +171,7 @@ openssl_public_key_malloc(sign_or_verify_data_t *verify_data, pem_pkey_t *pem_pu
     SV_THROW_IF(buf_size == 0, SV_INVALID_PARAMETER);
 
     BIO *bp = BIO_new_mem_buf(buf, buf_size);
+    SV_THROW_IF(!bp, SV_EXTERNAL_ERROR);
     verification_key = PEM_read_bio_PUBKEY(bp, NULL, NULL, NULL);
     BIO_free(bp);
     SV_THROW_IF(!verification_key, SV_EXTERNAL_ERROR);
-- 
2.43.0


From 9f2a595bd240c34da4c74bdc5bb5f01f743873ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:23 +0000
Subject: [PATCH 56/65] fix: report a failure to update the GOP hash

---
 lib/src/signed_video_h26x_common.c   | 11 ++++++-----
 lib/src/signed_video_h26x_internal.h |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index 3ce0d91..2b0dec6 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -858,10 +858,10 @@ update_num_nalus_in_gop_hash(signed_video_t *self, const h26x_nalu_t *nalu)
 /* Initializes and updates the GOP hash regardless of available space. If there is enough
  * room, copies the |hash| and updates |list_idx|. Otherwise, sets |list_idx| to -1.
  */
-void
+svrc_t
 check_and_copy_hash_to_hash_list(signed_video_t *self, const uint8_t *hash, size_t hash_size)
 {
-  if (!self || !hash) return;
+  if (!self || !hash) return SV_INVALID_PARAMETER;
 
   uint8_t *hash_list = &self->gop_info->hash_list[0];
   int *list_idx = &self->gop_info->list_idx;
@@ -869,7 +869,8 @@ check_and_copy_hash_to_hash_list(signed_video_t *self, const uint8_t *hash, size
   // If this is the start of the GOP, initialize |crypto_handle| to enable
   // updating the hash with each received NALU.
   if (*list_idx == 0) {
-    openssl_init_hash(self->crypto_handle, true);
+    svrc_t status = openssl_init_hash(self->crypto_handle, true);
+    if (status != SV_OK) return status;
   }
   // If the upcoming hash doesn't fit in the hash list buffer, set *list_idx to -1
   // to indicate that the hash list is full, and the hash list is no longer accessible.
@@ -882,7 +883,7 @@ check_and_copy_hash_to_hash_list(signed_video_t *self, const uint8_t *hash, size
     memcpy(&hash_list[*list_idx], hash, hash_size);
     *list_idx += hash_size;
   }
-  openssl_update_hash(self->crypto_handle, hash, hash_size, true);
+  return openssl_update_hash(self->crypto_handle, hash, hash_size, true);
 }
 
 /*
@@ -1070,7 +1071,7 @@ hash_and_add(signed_video_t *self, const h26x_nalu_t *nalu)
 #endif
     if (nalu->is_last_nalu_part) {
       // The end of the NALU has been reached. Update hash list and GOP hash.
-      check_and_copy_hash_to_hash_list(self, nalu_hash, hash_size);
+      SV_THROW(check_and_copy_hash_to_hash_list(self, nalu_hash, hash_size));
       update_num_nalus_in_gop_hash(self, nalu);
     }
   SV_CATCH()
diff --git a/lib/src/signed_video_h26x_internal.h b/lib/src/signed_video_h26x_internal.h
index a4a2a90..0433445 100644
--- a/lib/src/signed_video_h26x_internal.h
+++ b/lib/src/signed_video_h26x_internal.h
@@ -171,7 +171,7 @@ gop_state_reset(gop_state_t *gop_state);
 void
 update_num_nalus_in_gop_hash(signed_video_t *signed_video, const h26x_nalu_t *nalu);
 
-void
+svrc_t
 check_and_copy_hash_to_hash_list(signed_video_t *signed_video,
     const uint8_t *hash,
     size_t hash_size);
-- 
2.43.0


From 744f08c379b2d92d228755219e76d5c44bc61698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:23 +0000
Subject: [PATCH 57/65] fix: hash context without a digest type stays unusable

---
 lib/src/signed_video_openssl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index e281d2c..a5e4f43 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -352,6 +352,11 @@ openssl_init_hash(void *handle, bool use_primary_ctx)
     if (!(*ctx)) return SV_EXTERNAL_ERROR;
     // Set a message digest type and initialize the hashing function.
     ret = EVP_DigestInit_ex(*ctx, self->hash_algo.type, NULL);
+    if (ret != 1) {
+      // A context without a message digest type cannot be used.
+      EVP_MD_CTX_free(*ctx);
+      *ctx = NULL;
+    }
   }
   return ret == 1 ? SV_OK : SV_EXTERNAL_ERROR;
 }
-- 
2.43.0


From d81f24d61e64c1118e69766399d76f4be1e7f9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:23 +0000
Subject: [PATCH 58/65] fix: check allocation when verifying the attestation

---
 lib/vendors/axis-communications/sv_vendor_axis_communications.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 8be37a8..7f82726 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -413,6 +413,7 @@ verify_axis_communications_public_key(sv_vendor_axis_communications_t *self)
 
     // Create and fill in |signed_data|.
     signed_data = calloc(1, SIGNED_DATA_SIZE);
+    SV_THROW_IF(!signed_data, SV_MEMORY);
     uint8_t *sd_ptr = signed_data;
 
     // Add hash of |binary_raw_data|.
-- 
2.43.0


From 484c7511beb2e7a24b600467ae97a4ce540dd102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:23 +0000
Subject: [PATCH 59/65] fix: validation result gets lost if the call ends in an
 error

---
 lib/src/legacy/legacy_h26x_auth.c | 8 ++++++--
 lib/src/signed_video_h26x_auth.c  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 43fac4a..8df85be 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -1065,13 +1065,17 @@ legacy_sv_add_nalu_and_authenticate(legacy_sv_t *self,
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-    SV_THROW(legacy_sv_add_h26x_nalu(self, nalu_data, nalu_data_size));
+    const svrc_t add_nalu_status = legacy_sv_add_h26x_nalu(self, nalu_data, nalu_data_size);
     if (self->validation_flags.has_auth_result) {
+      // A validation result must not get lost even if a later operation failed.
       legacy_update_authenticity_report(self);
-      if (authenticity) *authenticity = signed_video_get_authenticity_report(self->parent);
+      if (authenticity && add_nalu_status == SV_OK) {
+        *authenticity = signed_video_get_authenticity_report(self->parent);
+      }
       // Reset the timestamp for the next report.
       self->latest_validation->has_timestamp = false;
     }
+    SV_THROW(add_nalu_status);
   SV_CATCH()
   SV_DONE(status)
 
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 3dba22a..6864ae3 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1309,13 +1309,17 @@ signed_video_add_nalu_and_authenticate(signed_video_t *self,
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     SV_THROW(create_local_authenticity_report_if_needed(self));
-    SV_THROW(signed_video_add_h26x_nalu(self, nalu_data, nalu_data_size));
+    const svrc_t add_nalu_status = signed_video_add_h26x_nalu(self, nalu_data, nalu_data_size);
     if (self->validation_flags.has_auth_result) {
+      // A validation result must not get lost even if a later operation failed.
       update_authenticity_report(self);
-      if (authenticity) *authenticity = signed_video_get_authenticity_report(self);
+      if (authenticity && add_nalu_status == SV_OK) {
+        *authenticity = signed_video_get_authenticity_report(self);
+      }
       // Reset the timestamp for the next report.
       self->latest_validation->has_timestamp = false;
     }
+    SV_THROW(add_nalu_status);
     SV_THROW(legacy_sv_add_nalu_and_authenticate(
         self->legacy_sv, nalu_data, nalu_data_size, authenticity));
   SV_CATCH()
-- 
2.43.0


From 501f1809dd20dfc8cc196373a1dffddc4af5faee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:23 +0000
Subject: [PATCH 60/65] fix: golden SEI cannot be generated after a failed
 attempt

---
 lib/src/signed_video_h26x_sign.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 95540f1..a2d6927 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -812,7 +812,10 @@ signed_video_generate_golden_sei(signed_video_t *self)
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     SV_THROW(prepare_for_nalus_to_prepend(self));
-    SV_THROW(generate_sei_nalu(self, &payload, &payload_signature_ptr));
+    status = generate_sei_nalu(self, &payload, &payload_signature_ptr);
+    // If that fails the next SEI still has to start from scratch.
+    if (status != SV_OK) reset_gop(self->gop_info);
+    SV_THROW(status);
     add_payload_to_buffer(self, payload, payload_signature_ptr);
 
   SV_CATCH()
-- 
2.43.0


From fd2ada5f4a91744b365bdf1648b9d08d320ad3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:23 +0000
Subject: [PATCH 61/65] fix: hash algorithm of an earlier stream used after a
 reset

---
 lib/src/signed_video_openssl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index a5e4f43..f8abfcb 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -516,6 +516,11 @@ openssl_set_hash_algo_by_encoded_oid(void *handle,
 
     free(self->hash_algo.encoded_oid);
     self->hash_algo = new_hash_algo;
+    // Free the contexts to be able to assign a new message digest type to them.
+    EVP_MD_CTX_free(self->primary_ctx);
+    self->primary_ctx = NULL;
+    EVP_MD_CTX_free(self->secondary_ctx);
+    self->secondary_ctx = NULL;
   SV_CATCH()
   {
     free(new_hash_algo.encoded_oid);
-- 
2.43.0


From a43a792cfa9cee373862ca50b21c7c3d53cb0500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:14 +0000
Subject: [PATCH 62/65] fix: legacy NAL unit that could not be copied as the
 first one of the list

---
 lib/src/legacy/legacy_h26x_auth.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 8df85be..d1f003a 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -760,8 +760,10 @@ legacy_prepare_for_validation(legacy_sv_t *self)
     }
 #endif
 
-    // If we have received a SEI there is a signature to use for verification.
-    if (self->gop_state.has_sei || self->nalu_list->first_item->nalu->is_golden_sei) {
+    // If we have received a SEI there is a signature to use for verification. The |nalu| is missing
+    // if it could not be copied.
+    const legacy_h26x_nalu_t *first_nalu = self->nalu_list->first_item->nalu;
+    if (self->gop_state.has_sei || (first_nalu && first_nalu->is_golden_sei)) {
 #ifdef SIGNED_VIDEO_DEBUG
       printf("Hash to verify against signature:\n");
       for (size_t i = 0; i < verify_data->hash_size; i++) {
-- 
2.43.0


From d5e4c52405b30e28c7d39c6e522596f1d0ec3930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:24 +0000
Subject: [PATCH 63/65] fix: video signed by a newer version is reported as a
 version mismatch

The local report had no |this_version|, so the comparison with |version_on_signing_side| always
failed. Only a successful validation is changed, since the version is read before the signature
has been verified.
---
 lib/src/legacy/legacy_h26x_auth.c   | 6 ++++--
 lib/src/signed_video_authenticity.c | 8 ++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index d1f003a..925f7eb 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -1109,8 +1109,10 @@ legacy_update_authenticity_report(legacy_sv_t *self)
   DEBUG_LOG("Legacy Validation statuses           = %s", validation_str);
 
   // Check for version mismatch. If |version_on_signing_side| is newer than |this_version| the
-  // authenticity result may not be reliable, hence change status.
-  if (signed_video_compare_versions(
+  // authenticity result may not be reliable, hence change status. Only a successful validation is
+  // changed, since the version is read from the SEI before its signature has been verified.
+  if (self->latest_validation->authenticity > SV_AUTH_RESULT_NOT_OK &&
+      signed_video_compare_versions(
           self->authenticity->this_version, self->authenticity->version_on_signing_side) == 2) {
     self->authenticity->latest_validation.authenticity = SV_AUTH_RESULT_VERSION_MISMATCH;
   }
diff --git a/lib/src/signed_video_authenticity.c b/lib/src/signed_video_authenticity.c
index d239bb3..d7a4845 100644
--- a/lib/src/signed_video_authenticity.c
+++ b/lib/src/signed_video_authenticity.c
@@ -271,8 +271,10 @@ update_authenticity_report(signed_video_t *self)
   DEBUG_LOG("Validation statuses           = %s", validation_str);
 
   // Check for version mismatch. If |version_on_signing_side| is newer than |this_version| the
-  // authenticity result may not be reliable, hence change status.
-  if (signed_video_compare_versions(
+  // authenticity result may not be reliable, hence change status. Only a successful validation is
+  // changed, since the version is read from the SEI before its signature has been verified.
+  if (self->latest_validation->authenticity > SV_AUTH_RESULT_NOT_OK &&
+      signed_video_compare_versions(
           self->authenticity->this_version, self->authenticity->version_on_signing_side) == 2) {
     self->authenticity->latest_validation.authenticity = SV_AUTH_RESULT_VERSION_MISMATCH;
   }
@@ -386,6 +388,8 @@ signed_video_authenticity_report_create()
     signed_video_authenticity_report_free(auth);
     return NULL;
   }
+  // Needed when comparing with |version_on_signing_side|.
+  strcpy(auth->this_version, SIGNED_VIDEO_VERSION);
 
   return auth;
 }
-- 
2.43.0


From b4b17ec6187605309710f9520fcc74686fd7db7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:24 +0000
Subject: [PATCH 64/65] fix: timestamp missing in a report that is fetched
 after the NALU was added

The timestamp was reset right after the report had been updated, hence it was lost if the user gets
reports with signed_video_get_authenticity_report(). It is now reset when the next NALU is added.
---
 lib/src/legacy/legacy_h26x_auth.c | 4 ++--
 lib/src/signed_video_h26x_auth.c  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 925f7eb..d602d95 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -1021,6 +1021,8 @@ legacy_sv_add_h26x_nalu(legacy_sv_t *self, const uint8_t *nalu_data, size_t nalu
   legacy_h26x_nalu_t nalu =
       legacy_parse_nalu_info(nalu_data, nalu_data_size, self->codec, true, true);
   DEBUG_LOG("Received a %s of size %zu B", legacy_nalu_type_to_str(&nalu), nalu.nalu_data_size);
+  // Reset the timestamp for the next report.
+  if (self->validation_flags.has_auth_result) self->latest_validation->has_timestamp = false;
   self->validation_flags.has_auth_result = false;
 
   self->accumulated_validation->number_of_received_nalus++;
@@ -1074,8 +1076,6 @@ legacy_sv_add_nalu_and_authenticate(legacy_sv_t *self,
       if (authenticity && add_nalu_status == SV_OK) {
         *authenticity = signed_video_get_authenticity_report(self->parent);
       }
-      // Reset the timestamp for the next report.
-      self->latest_validation->has_timestamp = false;
     }
     SV_THROW(add_nalu_status);
   SV_CATCH()
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 6864ae3..7c274cb 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1238,6 +1238,8 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
   h26x_nalu_list_t *nalu_list = self->nalu_list;
   h26x_nalu_t nalu = parse_nalu_info(nalu_data, nalu_data_size, self->codec, true, true);
   DEBUG_LOG("Received a %s of size %zu B", nalu_type_to_str(&nalu), nalu.nalu_data_size);
+  // Reset the timestamp for the next report.
+  if (self->validation_flags.has_auth_result) self->latest_validation->has_timestamp = false;
   self->validation_flags.has_auth_result = false;
 
   self->accumulated_validation->number_of_received_nalus++;
@@ -1316,8 +1318,6 @@ signed_video_add_nalu_and_authenticate(signed_video_t *self,
       if (authenticity && add_nalu_status == SV_OK) {
         *authenticity = signed_video_get_authenticity_report(self);
       }
-      // Reset the timestamp for the next report.
-      self->latest_validation->has_timestamp = false;
     }
     SV_THROW(add_nalu_status);
     SV_THROW(legacy_sv_add_nalu_and_authenticate(
-- 
2.43.0


From 54759ec39fc6aebf81bc4e22f28e36818f36b5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:24 +0000
Subject: [PATCH 65/65] fix: hash algorithm that is known, but not available,
 replaced the one in use

Neither a refused setting nor a SEI with the OID of such a hash algorithm must make the session
unusable.
---
 lib/src/signed_video_openssl.c | 49 ++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index f8abfcb..831f9a6 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -453,6 +453,30 @@ obj_to_oid_and_type(message_digest_t *self, const ASN1_OBJECT *obj)
   return status;
 }
 
+/* Replaces the hash algorithm in |self| with |new_hash_algo|, but only if it can be used. Upon success
+ * the memory of |new_hash_algo| is transferred. */
+static svrc_t
+replace_hash_algo(openssl_crypto_t *self, const message_digest_t *new_hash_algo)
+{
+  // The message digest may be known, but not be available.
+  EVP_MD_CTX *ctx = EVP_MD_CTX_new();
+  if (!ctx) return SV_EXTERNAL_ERROR;
+  if (EVP_DigestInit_ex(ctx, new_hash_algo->type, NULL) != 1) {
+    EVP_MD_CTX_free(ctx);
+    return SV_EXTERNAL_ERROR;
+  }
+
+  free(self->hash_algo.encoded_oid);
+  self->hash_algo = *new_hash_algo;
+  // Free the contexts to be able to assign a new message digest type to them.
+  EVP_MD_CTX_free(self->primary_ctx);
+  self->primary_ctx = NULL;
+  EVP_MD_CTX_free(self->secondary_ctx);
+  self->secondary_ctx = ctx;
+
+  return SV_OK;
+}
+
 svrc_t
 openssl_set_hash_algo(void *handle, const char *name_or_oid)
 {
@@ -464,23 +488,21 @@ openssl_set_hash_algo(void *handle, const char *name_or_oid)
   }
 
   ASN1_OBJECT *hash_algo_obj = NULL;
+  message_digest_t new_hash_algo = {0};
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     hash_algo_obj = OBJ_txt2obj(name_or_oid, 0 /* Accept both name and OID */);
     SV_THROW_IF_WITH_MSG(!hash_algo_obj, SV_INVALID_PARAMETER,
         "Could not identify hashing algorithm: %s", name_or_oid);
-    SV_THROW(obj_to_oid_and_type(&self->hash_algo, hash_algo_obj));
-    // Free the context to be able to assign a new message digest type to it.
-    EVP_MD_CTX_free(self->primary_ctx);
-    self->primary_ctx = NULL;
-    EVP_MD_CTX_free(self->secondary_ctx);
-    self->secondary_ctx = NULL;
-
-    SV_THROW(openssl_init_hash(self, false));
+    SV_THROW(obj_to_oid_and_type(&new_hash_algo, hash_algo_obj));
+    SV_THROW(replace_hash_algo(self, &new_hash_algo));
     DEBUG_LOG("Setting hash algo %s that has ASN.1/DER coded OID length %zu", name_or_oid,
         self->hash_algo.encoded_oid_size);
   SV_CATCH()
+  {
+    free(new_hash_algo.encoded_oid);
+  }
   SV_DONE(status)
 
   ASN1_OBJECT_free(hash_algo_obj);
@@ -502,7 +524,7 @@ openssl_set_hash_algo_by_encoded_oid(void *handle,
     return SV_OK;
   }
 
-  // A new hash algorithm to set. The existing one is replaced only if the new one is known.
+  // A new hash algorithm to set. The existing one is replaced only if the new one can be used.
   message_digest_t new_hash_algo = {0};
 
   svrc_t status = SV_UNKNOWN_FAILURE;
@@ -513,14 +535,7 @@ openssl_set_hash_algo_by_encoded_oid(void *handle,
     new_hash_algo.encoded_oid_size = encoded_oid_size;
 
     SV_THROW(oid_to_type(&new_hash_algo));
-
-    free(self->hash_algo.encoded_oid);
-    self->hash_algo = new_hash_algo;
-    // Free the contexts to be able to assign a new message digest type to them.
-    EVP_MD_CTX_free(self->primary_ctx);
-    self->primary_ctx = NULL;
-    EVP_MD_CTX_free(self->secondary_ctx);
-    self->secondary_ctx = NULL;
+    SV_THROW(replace_hash_algo(self, &new_hash_algo));
   SV_CATCH()
   {
     free(new_hash_algo.encoded_oid);
-- 
2.43.0

