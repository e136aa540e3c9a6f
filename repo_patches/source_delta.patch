From 7dcb82b659bf4b8129d3281bbf24cf07c6d2d5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:39 +0000
Subject: [PATCH 01/72] fix: never read outside the NAL Unit data when parsing
 it

A NAL Unit shorter than a start code, without a complete header, consisting of
zeros only, or a SEI with a payload size that does not match the amount of data
made the parser read outside the data passed in by the user.
---
 lib/src/legacy/legacy_h26x_common.c | 55 ++++++++++++++++++++--------
 lib/src/signed_video_h26x_common.c  | 56 ++++++++++++++++++++---------
 lib/src/signed_video_h26x_sign.c    |  2 +-
 lib/src/signed_video_tlv.c          | 19 ++++++----
 lib/src/signed_video_tlv.h          | 10 ++++--
 5 files changed, 102 insertions(+), 40 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_common.c b/lib/src/legacy/legacy_h26x_common.c
index 8d8cd5e..dab01a4 100644
--- a/lib/src/legacy/legacy_h26x_common.c
+++ b/lib/src/legacy/legacy_h26x_common.c
@@ -171,14 +171,15 @@ legacy_reset_gop_hash(legacy_sv_t *self)
 }
 
 static size_t
-legacy_get_payload_size(const uint8_t *data, size_t *payload_size)
+legacy_get_payload_size(const uint8_t *data, size_t data_size, size_t *payload_size)
 {
   const uint8_t *data_ptr = data;
+  const uint8_t *data_end = data + data_size;
   // Get payload size (including uuid). We assume the data points to the size bytes.
-  while (*data_ptr == 0xFF) {
+  while (data_ptr < data_end && *data_ptr == 0xFF) {
     *payload_size += *data_ptr++;
   }
-  *payload_size += *data_ptr++;
+  if (data_ptr < data_end) *payload_size += *data_ptr++;
 
   return (data_ptr - data);
 }
@@ -204,7 +205,8 @@ legacy_parse_h264_nalu_header(legacy_h26x_nalu_t *nalu)
   bool nalu_header_is_valid = false;
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = *(nalu->hashable_data + LEGACY_H264_NALU_HEADER_LEN) & 0x80;
+  nalu->is_primary_slice = (nalu->hashable_data_size > LEGACY_H264_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + LEGACY_H264_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -275,7 +277,8 @@ legacy_parse_h265_nalu_header(legacy_h26x_nalu_t *nalu)
   }
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = (*(nalu->hashable_data + LEGACY_H265_NALU_HEADER_LEN) & 0x80);
+  nalu->is_primary_slice = (nalu->hashable_data_size > LEGACY_H265_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + LEGACY_H265_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -393,7 +396,13 @@ legacy_remove_epb_from_sei_payload(legacy_h26x_nalu_t *nalu)
   nalu->with_epb = (nalu->reserved_byte & 0x80);  // Hash with emulation prevention bytes
   nalu->is_golden_sei = (nalu->reserved_byte & 0x40);  // The NALU is a golden SEI.
 
-  if (nalu->emulation_prevention_bytes <= 0) return;
+  if (nalu->emulation_prevention_bytes <= 0) {
+    // Never point outside the NALU data, even if the |payload_size| says so.
+    const size_t available_size =
+        nalu->hashable_data + nalu->hashable_data_size - nalu->tlv_start_in_nalu_data;
+    if (nalu->tlv_size > available_size) nalu->tlv_size = available_size;
+    return;
+  }
 
   // We need to read byte by byte to a new memory and remove any emulation prevention bytes.
   uint16_t last_two_bytes = LAST_TWO_BYTES_INIT_VALUE;
@@ -409,8 +418,10 @@ legacy_remove_epb_from_sei_payload(legacy_h26x_nalu_t *nalu)
     // Copy everything from the NALU header to stop bit (byte) inclusive, but with the emulation
     // prevention bytes removed.
     const uint8_t *hashable_data_ptr = nalu->hashable_data;
+    const uint8_t *hashable_data_end = nalu->hashable_data + nalu->hashable_data_size;
     for (size_t i = 0; i < data_size; i++) {
-      nalu->nalu_data_wo_epb[i] = read_byte(&last_two_bytes, &hashable_data_ptr, true);
+      nalu->nalu_data_wo_epb[i] =
+          read_byte(&last_two_bytes, &hashable_data_ptr, hashable_data_end, true);
     }
     // Point |tlv_data| to the first byte of the TLV part in |nalu_data_wo_epb|.
     nalu->tlv_data = &nalu->nalu_data_wo_epb[data_size - nalu->payload_size + UUID_LEN];
@@ -460,7 +471,10 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
   // We need to support all three cases.
   const uint32_t kStartCode = 0x00000001;
   uint32_t start_code = 0;
-  size_t read_bytes = read_32bits(nalu_data, &start_code);
+  // The NALU can be shorter than a Start Code. Avoid reading outside |nalu_data|.
+  uint8_t first_bytes[4] = {0};
+  memcpy(first_bytes, nalu_data, nalu_data_size < 4 ? nalu_data_size : 4);
+  size_t read_bytes = read_32bits(first_bytes, &start_code);
   bool nalu_header_is_valid = false;
 
   if (start_code != kStartCode) {
@@ -474,14 +488,21 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
     }
   }
   nalu.hashable_data = &nalu_data[read_bytes];
+  nalu.hashable_data_size = nalu_data_size - read_bytes;
   nalu.start_code = start_code;
 
+  nalu_header_len =
+      (codec == SV_CODEC_H264) ? LEGACY_H264_NALU_HEADER_LEN : LEGACY_H265_NALU_HEADER_LEN;
+  if (nalu.hashable_data_size < nalu_header_len) {
+    // There is no complete NALU header, hence the NALU is invalid.
+    nalu.is_valid = 0;
+    return nalu;
+  }
+
   if (codec == SV_CODEC_H264) {
     nalu_header_is_valid = legacy_parse_h264_nalu_header(&nalu);
-    nalu_header_len = LEGACY_H264_NALU_HEADER_LEN;
   } else {
     nalu_header_is_valid = legacy_parse_h265_nalu_header(&nalu);
-    nalu_header_len = LEGACY_H265_NALU_HEADER_LEN;
   }
   // If a correct NALU header could not be parsed, mark as invalid.
   nalu.is_valid = nalu_header_is_valid;
@@ -495,23 +516,25 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
   // when exporting to an mp4 container file. This has so far only been observed for H265. The
   // reason for this is still unknown. Therefore we end the hashable part at the byte including the
   // stop bit.
-  while (check_trailing_bytes && (nalu_data[nalu_data_size - 1] == 0x00)) {
+  while (check_trailing_bytes && (nalu_data_size > read_bytes + nalu_header_len) &&
+      (nalu_data[nalu_data_size - 1] == 0x00)) {
     DEBUG_LOG("Found trailing 0x00");
     nalu_data_size--;
   }
   nalu.hashable_data_size = nalu_data_size - read_bytes;
 
   // For SEI-nalus we parse payload and uuid information.
-  if (nalu.nalu_type == NALU_TYPE_SEI) {
+  if (nalu.nalu_type == NALU_TYPE_SEI && nalu.hashable_data_size > nalu_header_len) {
     // SEI NALU payload starts after the NALU header.
     const uint8_t *payload = nalu.hashable_data + nalu_header_len;
+    const uint8_t *payload_end = nalu.hashable_data + nalu.hashable_data_size;
     // Check user_data_unregistered
     uint8_t user_data_unregistered = *payload;
     payload++;
     if (user_data_unregistered == LEGACY_USER_DATA_UNREGISTERED) {
       // Decode payload size and compute emulation prevention bytes
       size_t payload_size = 0;
-      size_t read_bytes = legacy_get_payload_size(payload, &payload_size);
+      size_t read_bytes = legacy_get_payload_size(payload, payload_end - payload, &payload_size);
       payload += read_bytes;
       nalu.payload = payload;
       nalu.payload_size = payload_size;
@@ -527,8 +550,10 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
       nalu.emulation_prevention_bytes = epb;
       DEBUG_LOG("Computed %d emulation prevention byte(s)", nalu.emulation_prevention_bytes);
 
-      // Decode UUID type
-      nalu.uuid_type = legacy_get_uuid_sei_type(payload);
+      // Decode UUID type. A Signed Video SEI has at least a UUID and a reserved byte.
+      if (payload_size > UUID_LEN && (size_t)(payload_end - payload) > UUID_LEN) {
+        nalu.uuid_type = legacy_get_uuid_sei_type(payload);
+      }
     } else {
       // We only have UUID if SEI-NALU is user_data_unregistered
       nalu.uuid_type = UUID_TYPE_UNDEFINED;
diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index a68dad2..0f87f49 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -58,7 +58,7 @@ static void
 gop_info_free(gop_info_t *gop_info);
 
 static size_t
-h264_get_payload_size(const uint8_t *data, size_t *payload_size);
+h264_get_payload_size(const uint8_t *data, size_t data_size, size_t *payload_size);
 static SignedVideoUUIDType
 h264_get_uuid_sei_type(const uint8_t *uuid);
 static void
@@ -317,14 +317,15 @@ struct_member_memory_allocated_and_copy(void **member_ptr,
 }
 
 static size_t
-h264_get_payload_size(const uint8_t *data, size_t *payload_size)
+h264_get_payload_size(const uint8_t *data, size_t data_size, size_t *payload_size)
 {
   const uint8_t *data_ptr = data;
+  const uint8_t *data_end = data + data_size;
   // Get payload size (including uuid). We assume the data points to the size bytes.
-  while (*data_ptr == 0xFF) {
+  while (data_ptr < data_end && *data_ptr == 0xFF) {
     *payload_size += *data_ptr++;
   }
-  *payload_size += *data_ptr++;
+  if (data_ptr < data_end) *payload_size += *data_ptr++;
 
   return (data_ptr - data);
 }
@@ -350,7 +351,8 @@ parse_h264_nalu_header(h26x_nalu_t *nalu)
   bool nalu_header_is_valid = false;
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = *(nalu->hashable_data + H264_NALU_HEADER_LEN) & 0x80;
+  nalu->is_primary_slice = (nalu->hashable_data_size > H264_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + H264_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -421,7 +423,8 @@ parse_h265_nalu_header(h26x_nalu_t *nalu)
   }
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = (*(nalu->hashable_data + H265_NALU_HEADER_LEN) & 0x80);
+  nalu->is_primary_slice = (nalu->hashable_data_size > H265_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + H265_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -539,7 +542,13 @@ remove_epb_from_sei_payload(h26x_nalu_t *nalu)
   nalu->with_epb = (nalu->reserved_byte & 0x80);  // Hash with emulation prevention bytes
   nalu->is_golden_sei = (nalu->reserved_byte & 0x40);  // The NALU is a golden SEI.
 
-  if (nalu->emulation_prevention_bytes <= 0) return;
+  if (nalu->emulation_prevention_bytes <= 0) {
+    // Never point outside the NALU data, even if the |payload_size| says so.
+    const size_t available_size =
+        nalu->hashable_data + nalu->hashable_data_size - nalu->tlv_start_in_nalu_data;
+    if (nalu->tlv_size > available_size) nalu->tlv_size = available_size;
+    return;
+  }
 
   // We need to read byte by byte to a new memory and remove any emulation prevention bytes.
   uint16_t last_two_bytes = LAST_TWO_BYTES_INIT_VALUE;
@@ -555,8 +564,10 @@ remove_epb_from_sei_payload(h26x_nalu_t *nalu)
     // Copy everything from the NALU header to stop bit (byte) inclusive, but with the emulation
     // prevention bytes removed.
     const uint8_t *hashable_data_ptr = nalu->hashable_data;
+    const uint8_t *hashable_data_end = nalu->hashable_data + nalu->hashable_data_size;
     for (size_t i = 0; i < data_size; i++) {
-      nalu->nalu_data_wo_epb[i] = read_byte(&last_two_bytes, &hashable_data_ptr, true);
+      nalu->nalu_data_wo_epb[i] =
+          read_byte(&last_two_bytes, &hashable_data_ptr, hashable_data_end, true);
     }
     // Point |tlv_data| to the first byte of the TLV part in |nalu_data_wo_epb|.
     nalu->tlv_data = &nalu->nalu_data_wo_epb[data_size - nalu->payload_size + UUID_LEN];
@@ -606,7 +617,10 @@ parse_nalu_info(const uint8_t *nalu_data,
   // We need to support all three cases.
   const uint32_t kStartCode = 0x00000001;
   uint32_t start_code = 0;
-  size_t read_bytes = read_32bits(nalu_data, &start_code);
+  // The NALU can be shorter than a Start Code. Avoid reading outside |nalu_data|.
+  uint8_t first_bytes[4] = {0};
+  memcpy(first_bytes, nalu_data, nalu_data_size < 4 ? nalu_data_size : 4);
+  size_t read_bytes = read_32bits(first_bytes, &start_code);
   bool nalu_header_is_valid = false;
 
   if (start_code != kStartCode) {
@@ -620,14 +634,20 @@ parse_nalu_info(const uint8_t *nalu_data,
     }
   }
   nalu.hashable_data = &nalu_data[read_bytes];
+  nalu.hashable_data_size = nalu_data_size - read_bytes;
   nalu.start_code = start_code;
 
+  nalu_header_len = (codec == SV_CODEC_H264) ? H264_NALU_HEADER_LEN : H265_NALU_HEADER_LEN;
+  if (nalu.hashable_data_size < nalu_header_len) {
+    // There is no complete NALU header, hence the NALU is invalid.
+    nalu.is_valid = 0;
+    return nalu;
+  }
+
   if (codec == SV_CODEC_H264) {
     nalu_header_is_valid = parse_h264_nalu_header(&nalu);
-    nalu_header_len = H264_NALU_HEADER_LEN;
   } else {
     nalu_header_is_valid = parse_h265_nalu_header(&nalu);
-    nalu_header_len = H265_NALU_HEADER_LEN;
   }
   // If a correct NALU header could not be parsed, mark as invalid.
   nalu.is_valid = nalu_header_is_valid;
@@ -641,23 +661,25 @@ parse_nalu_info(const uint8_t *nalu_data,
   // when exporting to an mp4 container file. This has so far only been observed for H265. The
   // reason for this is still unknown. Therefore we end the hashable part at the byte including the
   // stop bit.
-  while (check_trailing_bytes && (nalu_data[nalu_data_size - 1] == 0x00)) {
+  while (check_trailing_bytes && (nalu_data_size > read_bytes + nalu_header_len) &&
+      (nalu_data[nalu_data_size - 1] == 0x00)) {
     DEBUG_LOG("Found trailing 0x00");
     nalu_data_size--;
   }
   nalu.hashable_data_size = nalu_data_size - read_bytes;
 
   // For SEI-nalus we parse payload and uuid information.
-  if (nalu.nalu_type == NALU_TYPE_SEI) {
+  if (nalu.nalu_type == NALU_TYPE_SEI && nalu.hashable_data_size > nalu_header_len) {
     // SEI NALU payload starts after the NALU header.
     const uint8_t *payload = nalu.hashable_data + nalu_header_len;
+    const uint8_t *payload_end = nalu.hashable_data + nalu.hashable_data_size;
     // Check user_data_unregistered
     uint8_t user_data_unregistered = *payload;
     payload++;
     if (user_data_unregistered == USER_DATA_UNREGISTERED) {
       // Decode payload size and compute emulation prevention bytes
       size_t payload_size = 0;
-      size_t read_bytes = h264_get_payload_size(payload, &payload_size);
+      size_t read_bytes = h264_get_payload_size(payload, payload_end - payload, &payload_size);
       payload += read_bytes;
       nalu.payload = payload;
       nalu.payload_size = payload_size;
@@ -673,8 +695,10 @@ parse_nalu_info(const uint8_t *nalu_data,
       nalu.emulation_prevention_bytes = epb;
       DEBUG_LOG("Computed %d emulation prevention byte(s)", nalu.emulation_prevention_bytes);
 
-      // Decode UUID type
-      nalu.uuid_type = h264_get_uuid_sei_type(payload);
+      // Decode UUID type. A Signed Video SEI has at least a UUID and a reserved byte.
+      if (payload_size > UUID_LEN && (size_t)(payload_end - payload) > UUID_LEN) {
+        nalu.uuid_type = h264_get_uuid_sei_type(payload);
+      }
     } else {
       // We only have UUID if SEI-NALU is user_data_unregistered
       nalu.uuid_type = UUID_TYPE_UNDEFINED;
diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 50d9ffc..9462f89 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -497,7 +497,7 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
     nalu.nalu_data = nalu_data;
     nalu.hashable_data = nalu_data;
     // Remove any trailing 0x00 bytes at the end of a NALU.
-    while (is_last_part && (nalu_data[nalu_data_size - 1] == 0x00)) {
+    while (is_last_part && (nalu_data_size > 0) && (nalu_data[nalu_data_size - 1] == 0x00)) {
       nalu_data_size--;
     }
     nalu.hashable_data_size = nalu_data_size;
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index a0945cf..216ab01 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -1212,29 +1212,30 @@ const uint8_t *
 tlv_find_tag(const uint8_t *tlv_data, size_t tlv_data_size, sv_tlv_tag_t tag, bool with_ep)
 {
   const uint8_t *tlv_data_ptr = tlv_data;
+  const uint8_t *tlv_data_end = tlv_data + tlv_data_size;
   const uint8_t *latest_tag_location = NULL;
 
   if (!tlv_data || tlv_data_size == 0) return 0;
 
   uint16_t last_two_bytes = LAST_TWO_BYTES_INIT_VALUE;
-  while (tlv_data_ptr < tlv_data + tlv_data_size) {
+  while (tlv_data_ptr < tlv_data_end) {
     latest_tag_location = tlv_data_ptr;
     // Read the tag
-    sv_tlv_tag_t this_tag = read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
+    sv_tlv_tag_t this_tag = read_byte(&last_two_bytes, &tlv_data_ptr, tlv_data_end, with_ep);
     if (this_tag == tag) {
       return latest_tag_location;
     }
 
     // Read the length
-    uint16_t length = read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
+    uint16_t length = read_byte(&last_two_bytes, &tlv_data_ptr, tlv_data_end, with_ep);
     sv_tlv_tuple_t tlv = get_tlv_tuple(this_tag);
     if (tlv.bytes_for_length == 2) {
       length <<= 8;
-      length |= read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
+      length |= read_byte(&last_two_bytes, &tlv_data_ptr, tlv_data_end, with_ep);
     }
     // Scan past the data
     for (int i = 0; i < length; i++) {
-      read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
+      read_byte(&last_two_bytes, &tlv_data_ptr, tlv_data_end, with_ep);
     }
   }
   DEBUG_LOG("Never found the tag %d", tag);
@@ -1349,14 +1350,20 @@ read_8bits(const uint8_t *p, uint8_t *val)
 }
 
 uint8_t
-read_byte(uint16_t *last_two_bytes, const uint8_t **data, bool do_emulation_prevention)
+read_byte(uint16_t *last_two_bytes,
+    const uint8_t **data,
+    const uint8_t *data_end,
+    bool do_emulation_prevention)
 {
+  if (*data >= data_end) return 0;
+
   uint8_t curr_byte = **data;
   if (do_emulation_prevention && curr_byte == 0x03 && *last_two_bytes == 0) {
     // Emulation prevention byte (0x03) detected. Move to next byte and return.
     *last_two_bytes <<= 8;
     *last_two_bytes |= (uint16_t)curr_byte;
     (*data)++;
+    if (*data >= data_end) return 0;
     curr_byte = **data;
   }
 
diff --git a/lib/src/signed_video_tlv.h b/lib/src/signed_video_tlv.h
index e59d4ba..fffabb2 100644
--- a/lib/src/signed_video_tlv.h
+++ b/lib/src/signed_video_tlv.h
@@ -124,10 +124,16 @@ write_byte(uint16_t *last_two_bytes, uint8_t **payload, uint8_t byte, bool do_em
 /**
  * @brief Reads a byte from payload w/wo emulation prevention
  *
- * @returns The byte read.
+ * @param payload_end End of the data, that is, one byte past the last byte of the payload. Nothing
+ *   is read outside the payload.
+ *
+ * @returns The byte read, or 0 if there is no more data to read.
  */
 uint8_t
-read_byte(uint16_t *last_two_bytes, const uint8_t **payload, bool do_emulation_prevention);
+read_byte(uint16_t *last_two_bytes,
+    const uint8_t **payload,
+    const uint8_t *payload_end,
+    bool do_emulation_prevention);
 
 /**
  * @brief Scans the TLV part of a SEI payload and decodes all recurrent tags
-- 
2.43.0


From 047bcbe90fc03fca781f7de1ba459aa7d229fa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:39 +0000
Subject: [PATCH 02/72] fix: find the signature in SEIs with many emulation
 prevention bytes

The size used when searching for the signature excludes emulation prevention
bytes, hence an authentic SEI with more emulation prevention bytes than there are
bytes in the signature could not be verified.
---
 lib/src/legacy/legacy_h26x_auth.c | 5 ++++-
 lib/src/signed_video_h26x_auth.c  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index bc21e70..8f435f3 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -980,8 +980,11 @@ legacy_update_hashable_data(legacy_h26x_nalu_t *nalu)
   // re-calculate hashable_data_size by subtracting the number of bytes (including potential
   // emulation prevention bytes) coresponding to that tag. This is done by scanning the TLV for that
   // tag.
+  // Note that the emulation prevention bytes are not included in |nalu->tlv_size|.
+  const size_t tlv_size =
+      nalu->hashable_data + nalu->hashable_data_size - nalu->tlv_start_in_nalu_data;
   const uint8_t *signature_tag_ptr =
-      tlv_find_tag(nalu->tlv_start_in_nalu_data, nalu->tlv_size, SIGNATURE_TAG, nalu->with_epb);
+      tlv_find_tag(nalu->tlv_start_in_nalu_data, tlv_size, SIGNATURE_TAG, nalu->with_epb);
 
   if (signature_tag_ptr) nalu->hashable_data_size = signature_tag_ptr - nalu->hashable_data;
 }
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index b4c74f5..ac5d476 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1058,8 +1058,11 @@ update_hashable_data(h26x_nalu_t *nalu)
   // re-calculate hashable_data_size by subtracting the number of bytes (including potential
   // emulation prevention bytes) coresponding to that tag. This is done by scanning the TLV for that
   // tag.
+  // Note that the emulation prevention bytes are not included in |nalu->tlv_size|.
+  const size_t tlv_size =
+      nalu->hashable_data + nalu->hashable_data_size - nalu->tlv_start_in_nalu_data;
   const uint8_t *signature_tag_ptr =
-      tlv_find_tag(nalu->tlv_start_in_nalu_data, nalu->tlv_size, SIGNATURE_TAG, nalu->with_epb);
+      tlv_find_tag(nalu->tlv_start_in_nalu_data, tlv_size, SIGNATURE_TAG, nalu->with_epb);
 
   if (signature_tag_ptr) nalu->hashable_data_size = signature_tag_ptr - nalu->hashable_data;
 }
-- 
2.43.0


From 6e35e33e15519474ebec1d6ca7c6bc2ad82d9524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:42 +0000
Subject: [PATCH 03/72] fix: never read outside the SEI payload when decoding
 TLVs

The TLV headers and the fields of every TLV are read from data that is not
yet authenticated. Check all sizes against what is left of the payload before
reading.
---
 lib/src/legacy/legacy_tlv.c                   | 69 +++++++------
 lib/src/signed_video_tlv.c                    | 96 +++++++++++++------
 lib/src/signed_video_tlv.h                    | 12 +++
 .../sv_vendor_axis_communications.c           |  4 +-
 4 files changed, 124 insertions(+), 57 deletions(-)

diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index ab75a40..ce7a59d 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -134,6 +134,7 @@ static legacy_sv_tlv_tuple_t
 legacy_get_tlv_tuple(sv_tlv_tag_t tag);
 static svrc_t
 legacy_decode_tlv_header(const uint8_t *data,
+    size_t data_size,
     size_t *data_bytes_read,
     sv_tlv_tag_t *tag,
     size_t *length);
@@ -175,6 +176,9 @@ legacy_decode_general(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
   if (!self || !data) return SV_INVALID_PARAMETER;
 
+  // The smallest size is the one of version 1.
+  if (data_size < 7 + SV_VERSION_BYTES) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   legacy_gop_info_t *gop_info = self->gop_info;
   uint8_t version = *data_ptr++;
@@ -201,9 +205,11 @@ legacy_decode_general(legacy_sv_t *self, const uint8_t *data, size_t data_size)
     if (version >= 2) {
       // Read bool flags
       uint8_t flags = 0;
+      SV_THROW_IF(data_ptr >= data + data_size, SV_AUTHENTICATION_ERROR);
       data_ptr += read_8bits(data_ptr, &flags);
       gop_info->has_timestamp = flags & 0x01;
       if (gop_info->has_timestamp) {
+        SV_THROW_IF((size_t)(data + data_size - data_ptr) < 8, SV_AUTHENTICATION_ERROR);
         data_ptr += read_64bits_signed(data_ptr, &gop_info->timestamp);
       }
       if (self->latest_validation) {
@@ -241,37 +247,24 @@ legacy_decode_general(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 static svrc_t
 legacy_decode_product_info(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  if (!self || !self->product_info) return SV_INVALID_PARAMETER;
+  if (data_size < 1) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
+  const uint8_t *data_end = data + data_size;
   uint8_t version = *data_ptr++;
   svrc_t status = SV_UNKNOWN_FAILURE;
 
-  if (!self || !self->product_info) return SV_INVALID_PARAMETER;
-
   SV_TRY()
     SV_THROW_IF(version == 0, SV_INCOMPATIBLE_VERSION);
 
     signed_video_product_info_t *product_info = self->product_info;
 
-    uint8_t hardware_id_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->hardware_id, (const char *)data_ptr));
-    data_ptr += hardware_id_size;
-
-    uint8_t firmware_version_size = *data_ptr++;
-    SV_THROW(
-        allocate_memory_and_copy_string(&product_info->firmware_version, (const char *)data_ptr));
-    data_ptr += firmware_version_size;
-
-    uint8_t serial_number_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->serial_number, (const char *)data_ptr));
-    data_ptr += serial_number_size;
-
-    uint8_t manufacturer_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->manufacturer, (const char *)data_ptr));
-    data_ptr += manufacturer_size;
-
-    uint8_t address_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->address, (const char *)data_ptr));
-    data_ptr += address_size;
+    SV_THROW(read_string(&data_ptr, data_end, &product_info->hardware_id));
+    SV_THROW(read_string(&data_ptr, data_end, &product_info->firmware_version));
+    SV_THROW(read_string(&data_ptr, data_end, &product_info->serial_number));
+    SV_THROW(read_string(&data_ptr, data_end, &product_info->manufacturer));
+    SV_THROW(read_string(&data_ptr, data_end, &product_info->address));
 
     // Transfer the decoded |product_info| to the authenticity report.
     SV_THROW(transfer_product_info(&self->authenticity->product_info, product_info));
@@ -298,6 +291,8 @@ legacy_decode_product_info(legacy_sv_t *self, const uint8_t *data, size_t data_s
 static svrc_t
 legacy_decode_arbitrary_data(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size < 1) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   uint16_t arbdata_size = (uint16_t)(data_size - 1);
@@ -337,6 +332,9 @@ legacy_decode_arbitrary_data(legacy_sv_t *self, const uint8_t *data, size_t data
 static svrc_t
 legacy_decode_public_key(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  // At least a version and two more bytes (the algo was part of the first version).
+  if (data_size < 3) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   pem_pkey_t *pem_public_key = &self->pem_public_key;
   uint8_t version = *data_ptr++;
@@ -406,6 +404,8 @@ legacy_decode_public_key(legacy_sv_t *self, const uint8_t *data, size_t data_siz
 static svrc_t
 legacy_decode_hash_list(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size < 1) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   size_t hash_list_size = data_size - (data_ptr - data);
@@ -442,6 +442,9 @@ legacy_decode_hash_list(legacy_sv_t *self, const uint8_t *data, size_t data_size
 static svrc_t
 legacy_decode_signature(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  // Version, info field, hash type, signature size (2 bytes) and at least one byte of signature.
+  if (data_size < 6) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   legacy_gop_info_t *gop_info = self->gop_info;
   sign_or_verify_data_t *verify_data = self->verify_data;
@@ -499,9 +502,13 @@ legacy_decode_signature(legacy_sv_t *self, const uint8_t *data, size_t data_size
 static svrc_t
 legacy_decode_crypto_info(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size < 2) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   size_t hash_algo_encoded_oid_size = *data_ptr++;
+  if (data_size != hash_algo_encoded_oid_size + 2) return SV_AUTHENTICATION_ERROR;
+
   const unsigned char *hash_algo_encoded_oid = (const unsigned char *)data_ptr;
   char *hash_algo_name =
       openssl_encoded_oid_to_str(hash_algo_encoded_oid, hash_algo_encoded_oid_size);
@@ -556,12 +563,13 @@ legacy_decode_axis_communications(legacy_sv_t ATTR_UNUSED *self,
 
 static svrc_t
 legacy_decode_tlv_header(const uint8_t *data,
+    size_t data_size,
     size_t *data_bytes_read,
     sv_tlv_tag_t *tag,
     size_t *length)
 {
   // Sanity checks on input parameters.
-  if (!data || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
+  if (!data || !data_size || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
 
   const uint8_t *data_ptr = data;
   sv_tlv_tag_t tag_from_data = (sv_tlv_tag_t)(*data_ptr++);
@@ -573,11 +581,16 @@ legacy_decode_tlv_header(const uint8_t *data,
   }
   *tag = tag_from_data;
 
+  // Make sure that both the length and the value are part of the data.
+  if (data_size < 1 + (size_t)tlv.bytes_for_length) return SV_AUTHENTICATION_ERROR;
   if (tlv.bytes_for_length == 2) {
-    data_ptr += read_16bits(data_ptr, (uint16_t *)length);
+    uint16_t length_from_data = 0;
+    data_ptr += read_16bits(data_ptr, &length_from_data);
+    *length = length_from_data;
   } else {
     *length = *data_ptr++;
   }
+  if (*length > data_size - (data_ptr - data)) return SV_AUTHENTICATION_ERROR;
 
   *data_bytes_read = (data_ptr - data);
 
@@ -596,7 +609,8 @@ legacy_tlv_decode(legacy_sv_t *self, const uint8_t *data, size_t data_size)
     sv_tlv_tag_t tag = 0;
     size_t tlv_header_size = 0;
     size_t length = 0;
-    status = legacy_decode_tlv_header(data_ptr, &tlv_header_size, &tag, &length);
+    status = legacy_decode_tlv_header(
+        data_ptr, data + data_size - data_ptr, &tlv_header_size, &tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode TLV header (error %d)", status);
       break;
@@ -630,13 +644,14 @@ legacy_tlv_find_and_decode_optional_tags(legacy_sv_t *self,
     size_t tlv_header_size = 0;
     size_t length = 0;
     sv_tlv_tag_t this_tag = UNDEFINED_TAG;
-    status = legacy_decode_tlv_header(tlv_data_ptr, &tlv_header_size, &this_tag, &length);
+    status = legacy_decode_tlv_header(tlv_data_ptr,
+        tlv_data + tlv_data_size - tlv_data_ptr, &tlv_header_size, &this_tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode tlv header");
       break;
     }
     tlv_data_ptr += tlv_header_size;
-    if (!tlv_tuples[this_tag].is_always_present) {
+    if (!legacy_get_tlv_tuple(this_tag).is_always_present) {
       legacy_sv_tlv_decoder_t decoder = legacy_get_decoder(this_tag);
       status = decoder(self, tlv_data_ptr, length);
       if (status != SV_OK) {
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index 216ab01..efcd960 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -178,7 +178,11 @@ get_decoder(sv_tlv_tag_t tag);
 static sv_tlv_tuple_t
 get_tlv_tuple(sv_tlv_tag_t tag);
 static svrc_t
-decode_tlv_header(const uint8_t *data, size_t *data_bytes_read, sv_tlv_tag_t *tag, size_t *length);
+decode_tlv_header(const uint8_t *data,
+    size_t data_size,
+    size_t *data_bytes_read,
+    sv_tlv_tag_t *tag,
+    size_t *length);
 
 /* Selects and returns the correct decoder from either |tlv_tuples| or |vendor_tlv_tuples|. */
 static sv_tlv_decoder_t
@@ -308,6 +312,9 @@ decode_general(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
   if (!self || !data) return SV_INVALID_PARAMETER;
 
+  // The smallest size is the one of version 1.
+  if (data_size < 7 + SV_VERSION_BYTES) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   gop_info_t *gop_info = self->gop_info;
   uint8_t version = *data_ptr++;
@@ -335,9 +342,11 @@ decode_general(signed_video_t *self, const uint8_t *data, size_t data_size)
     if (version >= 2) {
       // Read bool flags
       uint8_t flags = 0;
+      SV_THROW_IF(data_ptr >= data + data_size, SV_AUTHENTICATION_ERROR);
       data_ptr += read_8bits(data_ptr, &flags);
       gop_info->has_timestamp = flags & 0x01;
       if (gop_info->has_timestamp) {
+        SV_THROW_IF((size_t)(data + data_size - data_ptr) < 8, SV_AUTHENTICATION_ERROR);
         data_ptr += read_64bits_signed(data_ptr, &gop_info->timestamp);
       }
       if (self->latest_validation) {
@@ -349,6 +358,7 @@ decode_general(signed_video_t *self, const uint8_t *data, size_t data_size)
     }
     if (version >= 3) {
       hash_size = (data_size - (data_ptr - data)) / 2;
+      SV_THROW_IF(hash_size > MAX_HASH_SIZE, SV_AUTHENTICATION_ERROR);
       // Decode linked hash data.
       memcpy(self->received_linked_hash, data_ptr, hash_size);
       data_ptr += hash_size;
@@ -517,37 +527,24 @@ encode_product_info(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_product_info(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  if (!self || !self->product_info) return SV_INVALID_PARAMETER;
+  if (data_size < 1) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
+  const uint8_t *data_end = data + data_size;
   uint8_t version = *data_ptr++;
   svrc_t status = SV_UNKNOWN_FAILURE;
 
-  if (!self || !self->product_info) return SV_INVALID_PARAMETER;
-
   SV_TRY()
     SV_THROW_IF(version == 0, SV_INCOMPATIBLE_VERSION);
 
     signed_video_product_info_t *product_info = self->product_info;
 
-    uint8_t hardware_id_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->hardware_id, (const char *)data_ptr));
-    data_ptr += hardware_id_size;
-
-    uint8_t firmware_version_size = *data_ptr++;
-    SV_THROW(
-        allocate_memory_and_copy_string(&product_info->firmware_version, (const char *)data_ptr));
-    data_ptr += firmware_version_size;
-
-    uint8_t serial_number_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->serial_number, (const char *)data_ptr));
-    data_ptr += serial_number_size;
-
-    uint8_t manufacturer_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->manufacturer, (const char *)data_ptr));
-    data_ptr += manufacturer_size;
-
-    uint8_t address_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->address, (const char *)data_ptr));
-    data_ptr += address_size;
+    SV_THROW(read_string(&data_ptr, data_end, &product_info->hardware_id));
+    SV_THROW(read_string(&data_ptr, data_end, &product_info->firmware_version));
+    SV_THROW(read_string(&data_ptr, data_end, &product_info->serial_number));
+    SV_THROW(read_string(&data_ptr, data_end, &product_info->manufacturer));
+    SV_THROW(read_string(&data_ptr, data_end, &product_info->address));
 
     // Transfer the decoded |product_info| to the authenticity report.
     if (self->authenticity) {
@@ -607,6 +604,8 @@ encode_arbitrary_data(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_arbitrary_data(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size < 1) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   uint16_t arbdata_size = (uint16_t)(data_size - 1);
@@ -694,6 +693,9 @@ encode_public_key(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_public_key(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  // At least a version and two more bytes (the algo was part of the first version).
+  if (data_size < 3) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   pem_pkey_t *pem_public_key = &self->pem_public_key;
   uint8_t version = *data_ptr++;
@@ -804,6 +806,8 @@ encode_hash_list(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_hash_list(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size < 1) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   size_t hash_list_size = data_size - (data_ptr - data);
@@ -896,6 +900,9 @@ encode_signature(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_signature(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  // Version, info field, hash type, signature size (2 bytes) and at least one byte of signature.
+  if (data_size < 6) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   gop_info_t *gop_info = self->gop_info;
   sign_or_verify_data_t *verify_data = self->verify_data;
@@ -997,9 +1004,13 @@ encode_crypto_info(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_crypto_info(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size < 2) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   size_t hash_algo_encoded_oid_size = *data_ptr++;
+  if (data_size != hash_algo_encoded_oid_size + 2) return SV_AUTHENTICATION_ERROR;
+
   const unsigned char *hash_algo_encoded_oid = (const unsigned char *)data_ptr;
   char *hash_algo_name =
       openssl_encoded_oid_to_str(hash_algo_encoded_oid, hash_algo_encoded_oid_size);
@@ -1151,10 +1162,14 @@ tlv_list_encode_or_get_size(signed_video_t *self,
 }
 
 static svrc_t
-decode_tlv_header(const uint8_t *data, size_t *data_bytes_read, sv_tlv_tag_t *tag, size_t *length)
+decode_tlv_header(const uint8_t *data,
+    size_t data_size,
+    size_t *data_bytes_read,
+    sv_tlv_tag_t *tag,
+    size_t *length)
 {
   // Sanity checks on input parameters.
-  if (!data || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
+  if (!data || !data_size || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
 
   const uint8_t *data_ptr = data;
   sv_tlv_tag_t tag_from_data = (sv_tlv_tag_t)(*data_ptr++);
@@ -1166,11 +1181,16 @@ decode_tlv_header(const uint8_t *data, size_t *data_bytes_read, sv_tlv_tag_t *ta
   }
   *tag = tag_from_data;
 
+  // Make sure that both the length and the value are part of the data.
+  if (data_size < 1 + (size_t)tlv.bytes_for_length) return SV_AUTHENTICATION_ERROR;
   if (tlv.bytes_for_length == 2) {
-    data_ptr += read_16bits(data_ptr, (uint16_t *)length);
+    uint16_t length_from_data = 0;
+    data_ptr += read_16bits(data_ptr, &length_from_data);
+    *length = length_from_data;
   } else {
     *length = *data_ptr++;
   }
+  if (*length > data_size - (data_ptr - data)) return SV_AUTHENTICATION_ERROR;
 
   *data_bytes_read = (data_ptr - data);
 
@@ -1189,7 +1209,8 @@ tlv_decode(signed_video_t *self, const uint8_t *data, size_t data_size)
     sv_tlv_tag_t tag = 0;
     size_t tlv_header_size = 0;
     size_t length = 0;
-    status = decode_tlv_header(data_ptr, &tlv_header_size, &tag, &length);
+    status = decode_tlv_header(
+        data_ptr, data + data_size - data_ptr, &tlv_header_size, &tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode TLV header (error %d)", status);
       break;
@@ -1258,13 +1279,14 @@ tlv_find_and_decode_optional_tags(signed_video_t *self,
     size_t tlv_header_size = 0;
     size_t length = 0;
     sv_tlv_tag_t this_tag = UNDEFINED_TAG;
-    status = decode_tlv_header(tlv_data_ptr, &tlv_header_size, &this_tag, &length);
+    status = decode_tlv_header(tlv_data_ptr,
+        tlv_data + tlv_data_size - tlv_data_ptr, &tlv_header_size, &this_tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode tlv header");
       break;
     }
     tlv_data_ptr += tlv_header_size;
-    if (!tlv_tuples[this_tag].is_always_present) {
+    if (!get_tlv_tuple(this_tag).is_always_present) {
       sv_tlv_decoder_t decoder = get_decoder(this_tag);
       status = decoder(self, tlv_data_ptr, length);
       if (status != SV_OK) {
@@ -1349,6 +1371,22 @@ read_8bits(const uint8_t *p, uint8_t *val)
   return 1;
 }
 
+svrc_t
+read_string(const uint8_t **data, const uint8_t *data_end, char **str)
+{
+  if (*data >= data_end) return SV_AUTHENTICATION_ERROR;
+
+  const size_t str_size = *(*data)++;
+  if (str_size > (size_t)(data_end - *data)) return SV_AUTHENTICATION_ERROR;
+  // The string should be null-terminated.
+  if (str_size > 0 && (*data)[str_size - 1] != '\0') return SV_AUTHENTICATION_ERROR;
+
+  svrc_t status = allocate_memory_and_copy_string(str, str_size > 0 ? (const char *)*data : NULL);
+  *data += str_size;
+
+  return status;
+}
+
 uint8_t
 read_byte(uint16_t *last_two_bytes,
     const uint8_t **data,
diff --git a/lib/src/signed_video_tlv.h b/lib/src/signed_video_tlv.h
index fffabb2..b88fe8c 100644
--- a/lib/src/signed_video_tlv.h
+++ b/lib/src/signed_video_tlv.h
@@ -95,6 +95,18 @@ read_16bits(const uint8_t *p, uint16_t *val);
 size_t
 read_8bits(const uint8_t *p, uint8_t *val);
 
+/**
+ * @brief Reads a string from data, stored as one byte of size followed by a null-terminated string
+ *
+ * @param data Location to read from. Is moved past the string.
+ * @param data_end End of the data, that is, one byte past the last byte to read.
+ * @param str Location of the string to which the read string is copied. Memory is allocated.
+ *
+ * @returns SV_OK if successful, otherwise an error code.
+ */
+svrc_t
+read_string(const uint8_t **data, const uint8_t *data_end, char **str);
+
 /**
  * @brief Writes many bytes to payload w/wo emulation prevention
  *
diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 66daf95..408374c 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -604,6 +604,7 @@ svrc_t
 decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data_size)
 {
   if (!handle) return SV_INVALID_PARAMETER;
+  if (data_size < 2) return SV_AUTHENTICATION_ERROR;
 
   sv_vendor_axis_communications_t *self = (sv_vendor_axis_communications_t *)handle;
   const uint8_t *data_ptr = data;
@@ -617,6 +618,7 @@ decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data
     // Read |attestation_size|.
     attestation_size = *data_ptr++;
     SV_THROW_IF(attestation_size == 0, SV_NOT_SUPPORTED);
+    SV_THROW_IF(data_size <= (size_t)attestation_size + 2, SV_AUTHENTICATION_ERROR);
     // Allocate memory for |attestation|.
     if (!self->attestation) {
       self->attestation = malloc(attestation_size);
@@ -636,7 +638,6 @@ decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data
     //  - 1 byte for version
     //  - 1 bytes for |attestation_size|
     //  - |attestation_size| bytes for |attestation|
-    SV_THROW_IF(data_size <= (size_t)attestation_size + 2, SV_AUTHENTICATION_ERROR);
     cert_size = data_size - attestation_size - 2;
 
     // Allocate memory for |certificate_chain| including null-terminated character.
@@ -646,6 +647,7 @@ decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data
       memcpy(self->certificate_chain, data_ptr, cert_size);
     }
     // Compare incoming certificate chain against present and throw an error if they differ.
+    SV_THROW_IF(strlen(self->certificate_chain) != cert_size, SV_NOT_SUPPORTED);
     SV_THROW_IF(memcmp(data_ptr, self->certificate_chain, cert_size), SV_NOT_SUPPORTED);
     // Move pointer past |certificate_chain|.
     data_ptr += cert_size;
-- 
2.43.0


From 144781e5ea6698469906c5ba0a5354841428f8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:42 +0000
Subject: [PATCH 04/72] fix: reject unknown hash algorithms in a SEI

---
 lib/src/signed_video_openssl.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 90d83ec..8110cad 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -401,8 +401,10 @@ oid_to_type(message_digest_t *self)
     encoded_oid_ptr = self->encoded_oid;
     SV_THROW_IF(
         !d2i_ASN1_OBJECT(&obj, &encoded_oid_ptr, self->encoded_oid_size), SV_EXTERNAL_ERROR);
-    self->type = EVP_get_digestbyobj(obj);
-    self->size = EVP_MD_size(self->type);
+    const EVP_MD *type = EVP_get_digestbyobj(obj);
+    SV_THROW_IF(!type, SV_EXTERNAL_ERROR);
+    self->type = type;
+    self->size = EVP_MD_size(type);
   SV_CATCH()
   SV_DONE(status)
 
@@ -499,6 +501,11 @@ openssl_set_hash_algo_by_encoded_oid(void *handle,
 
     SV_THROW(oid_to_type(&self->hash_algo));
   SV_CATCH()
+  {
+    free(self->hash_algo.encoded_oid);
+    self->hash_algo.encoded_oid = NULL;
+    self->hash_algo.encoded_oid_size = 0;
+  }
   SV_DONE(status)
 
   return status;
-- 
2.43.0


From b236d4213b139de5ca0627780981069a130b7cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:04 +0000
Subject: [PATCH 05/72] fix: use the hash algorithm in the SEI when the public
 key is set by the user

The cryptographic information in the first SEI was not decoded before the NAL
Units were hashed, since no recurrent data was needed to get the public key.
The default hash algorithm was then used whatever the SEI stated.
---
 lib/src/signed_video_h26x_auth.c |  4 ++++
 lib/src/signed_video_tlv.c       | 24 ++++++++++++++++++++++++
 lib/src/signed_video_tlv.h       | 14 ++++++++++++++
 3 files changed, 42 insertions(+)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index ac5d476..450a878 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1156,6 +1156,10 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
     // Units.
     if (!self->validation_flags.hash_algo_known && self->validation_flags.signing_present &&
         is_recurrent_data_decoded(self)) {
+      // With a public key set by the user no recurrent data has been decoded.
+      if (!self->validation_flags.hash_algo_known && nalu.is_gop_sei) {
+        tlv_find_and_decode_crypto_info(self, nalu.tlv_data, nalu.tlv_size);
+      }
       if (!self->validation_flags.hash_algo_known) {
         DEBUG_LOG("No cryptographic information found in SEI. Using default hash algo");
         self->validation_flags.hash_algo_known = true;
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index efcd960..59d60db 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -1301,6 +1301,30 @@ tlv_find_and_decode_optional_tags(signed_video_t *self,
   return optional_tags_decoded;
 }
 
+svrc_t
+tlv_find_and_decode_crypto_info(signed_video_t *self,
+    const uint8_t *tlv_data,
+    size_t tlv_data_size)
+{
+  if (!self || !tlv_data) return SV_INVALID_PARAMETER;
+
+  const uint8_t *tlv_data_ptr = tlv_data;
+  const uint8_t *tlv_data_end = tlv_data + tlv_data_size;
+  while (tlv_data_ptr < tlv_data_end) {
+    size_t tlv_header_size = 0;
+    size_t length = 0;
+    sv_tlv_tag_t this_tag = UNDEFINED_TAG;
+    svrc_t status = decode_tlv_header(
+        tlv_data_ptr, tlv_data_end - tlv_data_ptr, &tlv_header_size, &this_tag, &length);
+    if (status != SV_OK) return status;
+    tlv_data_ptr += tlv_header_size;
+    if (this_tag == CRYPTO_INFO_TAG) return decode_crypto_info(self, tlv_data_ptr, length);
+    tlv_data_ptr += length;
+  }
+
+  return SV_OK;
+}
+
 const sv_tlv_tag_t *
 get_optional_tags(size_t *num_of_optional_tags)
 {
diff --git a/lib/src/signed_video_tlv.h b/lib/src/signed_video_tlv.h
index b88fe8c..2c2aa65 100644
--- a/lib/src/signed_video_tlv.h
+++ b/lib/src/signed_video_tlv.h
@@ -164,6 +164,20 @@ tlv_find_and_decode_optional_tags(signed_video_t *self,
     const uint8_t *tlv_data,
     size_t tlv_data_size);
 
+/**
+ * @brief Scans the TLV part of a SEI payload and decodes the cryptographic information, if present
+ *
+ * @param self Pointer to the signed_video_t session.
+ * @param tlv_data Pointer to the TLV data to scan.
+ * @param tlv_data_size Size of the TLV data.
+ *
+ * @returns SV_OK if the information was decoded, or is not present, otherwise an error code.
+ */
+svrc_t
+tlv_find_and_decode_crypto_info(signed_video_t *self,
+    const uint8_t *tlv_data,
+    size_t tlv_data_size);
+
 /**
  * @brief Helper to get only the optional tags as an array
  *
-- 
2.43.0


From 79bfb61d936c90c9129a26005227c4530dbf5d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:29 +0000
Subject: [PATCH 06/72] fix: compute GOP hashes with the new hash algorithm if
 it changes

A message digest context keeps its type. Without freeing it the GOP hash was
computed with the hash algorithm of the previous stream.
---
 lib/src/signed_video_openssl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 8110cad..e1576fb 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -500,6 +500,11 @@ openssl_set_hash_algo_by_encoded_oid(void *handle,
     self->hash_algo.encoded_oid_size = encoded_oid_size;
 
     SV_THROW(oid_to_type(&self->hash_algo));
+    // Free the contexts to be able to assign a new message digest type to them.
+    EVP_MD_CTX_free(self->primary_ctx);
+    self->primary_ctx = NULL;
+    EVP_MD_CTX_free(self->secondary_ctx);
+    self->secondary_ctx = NULL;
   SV_CATCH()
   {
     free(self->hash_algo.encoded_oid);
-- 
2.43.0


From caa2b625fa04f74dd1b265ae3c044dfd08d86c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:29 +0000
Subject: [PATCH 07/72] fix: free the object when setting the hash algorithm
 from an OID

---
 lib/src/signed_video_openssl.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index e1576fb..ccc6c41 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -452,9 +452,10 @@ openssl_set_hash_algo(void *handle, const char *name_or_oid)
     name_or_oid = DEFAULT_HASH_ALGO;
   }
 
+  ASN1_OBJECT *hash_algo_obj = NULL;
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-    ASN1_OBJECT *hash_algo_obj = OBJ_txt2obj(name_or_oid, 0 /* Accept both name and OID */);
+    hash_algo_obj = OBJ_txt2obj(name_or_oid, 0 /* Accept both name and OID */);
     SV_THROW_IF_WITH_MSG(!hash_algo_obj, SV_INVALID_PARAMETER,
         "Could not identify hashing algorithm: %s", name_or_oid);
     SV_THROW(obj_to_oid_and_type(&self->hash_algo, hash_algo_obj));
@@ -470,6 +471,8 @@ openssl_set_hash_algo(void *handle, const char *name_or_oid)
   SV_CATCH()
   SV_DONE(status)
 
+  ASN1_OBJECT_free(hash_algo_obj);
+
   return status;
 }
 
-- 
2.43.0


From da2cf77bd14eb5af7f51beef4b04e29ee8c9050a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:16 +0000
Subject: [PATCH 08/72] fix: avoid signed overflow when detecting lost SEIs

The GOP counter has 32 bits, hence the wraparound is to be compared with that
and not with INT64_MAX, for which any lost SEI gave a signed overflow.
---
 lib/src/signed_video_h26x_auth.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 450a878..344196f 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -113,8 +113,9 @@ detect_lost_sei(signed_video_t *self)
   // a reset and a wraparound but provides a reasonable estimate to handle the situation.
   // TODO: Investigate what happens if two SEI frames are interchanged.This will be
   // addressed in future updates.
-  bool is_wraparound = (potentially_missed_gops + INT64_MAX) < (INT64_MAX / 2);
-  if (is_wraparound) potentially_missed_gops += INT64_MAX;
+  const int64_t wraparound = (int64_t)UINT32_MAX + 1;  // The GOP counter is a 32 bit value.
+  bool is_wraparound = (potentially_missed_gops + wraparound) < (wraparound / 2);
+  if (is_wraparound) potentially_missed_gops += wraparound;
 
   // It is only possible to know if a SEI has been lost if the |global_gop_counter| is in sync.
   // Otherwise, the counter cannot be trusted.
-- 
2.43.0


From ff7abceb7aaf92cec88973b8b199dd09deefbe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:20 +0000
Subject: [PATCH 09/72] fix: do not call the decoder of a tag that has none

---
 lib/src/legacy/legacy_tlv.c | 2 +-
 lib/src/signed_video_tlv.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index ce7a59d..aa7533b 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -575,7 +575,7 @@ legacy_decode_tlv_header(const uint8_t *data,
   sv_tlv_tag_t tag_from_data = (sv_tlv_tag_t)(*data_ptr++);
   *data_bytes_read = 0;
   legacy_sv_tlv_tuple_t tlv = legacy_get_tlv_tuple(tag_from_data);
-  if (tlv.tag != tag_from_data) {
+  if (tlv.tag != tag_from_data || !tlv.decoder) {
     DEBUG_LOG("Parsed an invalid tag (%d) in the data", tag_from_data);
     return SV_INVALID_PARAMETER;
   }
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index 59d60db..7c85578 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -1175,7 +1175,7 @@ decode_tlv_header(const uint8_t *data,
   sv_tlv_tag_t tag_from_data = (sv_tlv_tag_t)(*data_ptr++);
   *data_bytes_read = 0;
   sv_tlv_tuple_t tlv = get_tlv_tuple(tag_from_data);
-  if (tlv.tag != tag_from_data) {
+  if (tlv.tag != tag_from_data || !tlv.decoder) {
     DEBUG_LOG("Parsed an invalid tag (%d) in the data", tag_from_data);
     return SV_INVALID_PARAMETER;
   }
-- 
2.43.0


From 44640a5ea2c07608794873306dc78e2e12864ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:40 +0000
Subject: [PATCH 10/72] fix: never report OK if the signature could not be
 verified

An error when verifying the signature, for example, because the signature
is malformed, removed the used_in_gop_hash flags. As a consequence, the
invalid NAL Units were never counted and the GOP was reported as OK.
---
 lib/src/signed_video_h26x_auth.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 344196f..7154c3d 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -514,8 +514,6 @@ verify_hashes_with_sei(signed_video_t *self, int *num_expected_nalus, int *num_r
     // An error occurred when verifying the GOP hash. Verify without a SEI.
     validation_status = 'E';
     sei->validation_status = validation_status;
-    // Remove |used_in_gop_hash| from marked NALUs.
-    remove_used_in_gop_hash(self->nalu_list);
     return verify_hashes_without_sei(self);
   }
 
@@ -649,6 +647,8 @@ validate_authenticity(signed_video_t *self)
   remove_used_in_gop_hash(self->nalu_list);
 
   valid = (num_invalid_nalus > 0) ? SV_AUTH_RESULT_NOT_OK : SV_AUTH_RESULT_OK;
+  // A SEI of which the signature could not be verified is never authentic.
+  if (self->gop_info->verified_signature_hash != 1) valid = SV_AUTH_RESULT_NOT_OK;
 
   // Post-validation actions.
 
-- 
2.43.0


From d88d934fb43e6a91381738a8f5a3090f9053703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:54 +0000
Subject: [PATCH 11/72] fix: do not get stuck when validating a SEI of a lost
 GOP

If the GOP counter in the SEI is further ahead than the number of pending
GOPs, all NAL Units prior to the SEI are marked, but the SEI stays pending.
From there on nothing changes and the validation loops forever.
---
 lib/src/signed_video_h26x_auth.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 7154c3d..848bd6d 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -588,6 +588,17 @@ verify_hashes_without_sei(signed_video_t *self)
   return found_next_gop;
 }
 
+/* Checks if there are any NALUs, pending validation, prior to the oldest pending SEI. */
+static bool
+has_pending_nalus_before_sei(const h26x_nalu_list_t *nalu_list)
+{
+  const h26x_nalu_list_item_t *item = nalu_list->first_item;
+  while (item && item->validation_status != 'P') {
+    item = item->next;
+  }
+  return item && !item->nalu->is_gop_sei;
+}
+
 /* Validates the authenticity using hashes in the |nalu_list|.
  *
  * In brief, the validation verifies hashes and sets the |validation_status| given the outcome.
@@ -627,7 +638,8 @@ validate_authenticity(signed_video_t *self)
   int num_missed_nalus = -1;
   bool verify_success = false;
 
-  if (gop_state->has_lost_sei && !gop_state->gop_transition_is_lost) {
+  if (gop_state->has_lost_sei && !gop_state->gop_transition_is_lost &&
+      has_pending_nalus_before_sei(self->nalu_list)) {
     DEBUG_LOG("We never received the SEI associated with this GOP");
     // We never received the SEI nalu, but we know we have passed a GOP transition. Hence, we cannot
     // verify this GOP. Marking this GOP as not OK by verify_hashes_without_sei().
@@ -658,7 +670,7 @@ validate_authenticity(signed_video_t *self)
   // actions on the output.
   if (!validation_flags->is_first_validation) {
     if ((valid == SV_AUTH_RESULT_OK) && (num_expected_nalus > 1) &&
-        (num_missed_nalus >= num_expected_nalus)) {
+        (num_missed_nalus >= num_expected_nalus || num_received_nalus == 0)) {
       valid = SV_AUTH_RESULT_NOT_OK;
     }
     self->gop_info->global_gop_counter_is_synced = true;
-- 
2.43.0


From 679160524d9c9d19059b1c4ed50a1e03495f593f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:08 +0000
Subject: [PATCH 12/72] fix: handle signatures of another size when the public
 key changes

A signature of another size than the previous one made the decoding fail
with SV_MEMORY. The changed public key was never reported and the GOPs
were never validated.
---
 lib/src/legacy/legacy_tlv.c | 5 +++--
 lib/src/signed_video_tlv.c  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index aa7533b..c4e77df 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -466,7 +466,9 @@ legacy_decode_signature(legacy_sv_t *self, const uint8_t *data, size_t data_size
     SV_THROW_IF(version == 0, SV_INCOMPATIBLE_VERSION);
     SV_THROW_IF(hash_type < 0 || hash_type >= LEGACY_NUM_HASH_TYPES, SV_AUTHENTICATION_ERROR);
     SV_THROW_IF(max_signature_size < signature_size, SV_AUTHENTICATION_ERROR);
-    if (!*signature_ptr) {
+    // The size changes if the public key does.
+    if (!*signature_ptr || verify_data->max_signature_size != max_signature_size) {
+      free(*signature_ptr);
       verify_data->max_signature_size = 0;
       verify_data->signature_size = 0;
       // Allocate enough space for future signatures as well, that is, max_signature_size.
@@ -475,7 +477,6 @@ legacy_decode_signature(legacy_sv_t *self, const uint8_t *data, size_t data_size
       // Set memory size.
       verify_data->max_signature_size = max_signature_size;
     }
-    SV_THROW_IF(verify_data->max_signature_size != max_signature_size, SV_MEMORY);
     memcpy(*signature_ptr, data_ptr, max_signature_size);
     data_ptr += max_signature_size;
 
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index 7c85578..6c6e97e 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -924,7 +924,9 @@ decode_signature(signed_video_t *self, const uint8_t *data, size_t data_size)
     SV_THROW_IF(version == 0, SV_INCOMPATIBLE_VERSION);
     SV_THROW_IF(hash_type < 0 || hash_type >= NUM_HASH_TYPES, SV_AUTHENTICATION_ERROR);
     SV_THROW_IF(max_signature_size < signature_size, SV_AUTHENTICATION_ERROR);
-    if (!*signature_ptr) {
+    // The size changes if the public key does.
+    if (!*signature_ptr || verify_data->max_signature_size != max_signature_size) {
+      free(*signature_ptr);
       verify_data->max_signature_size = 0;
       verify_data->signature_size = 0;
       // Allocate enough space for future signatures as well, that is, max_signature_size.
@@ -933,7 +935,6 @@ decode_signature(signed_video_t *self, const uint8_t *data, size_t data_size)
       // Set memory size.
       verify_data->max_signature_size = max_signature_size;
     }
-    SV_THROW_IF(verify_data->max_signature_size != max_signature_size, SV_MEMORY);
     memcpy(*signature_ptr, data_ptr, max_signature_size);
     data_ptr += max_signature_size;
 
-- 
2.43.0


From 05e0e375cc75b4ee5b8eaa7376be0cc1102f17ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:25 +0000
Subject: [PATCH 13/72] fix: remove all missing items after an unsuccessful
 first validation

The items, marked as missing when a segment starts with a SEI of a GOP
outside it, can be added after the first item. These were left in the list
and counted as pending NAL Units.
---
 lib/src/signed_video_h26x_nalu_list.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/signed_video_h26x_nalu_list.c b/lib/src/signed_video_h26x_nalu_list.c
index 0a9e3db..115f268 100644
--- a/lib/src/signed_video_h26x_nalu_list.c
+++ b/lib/src/signed_video_h26x_nalu_list.c
@@ -402,7 +402,7 @@ h26x_nalu_list_add_missing(h26x_nalu_list_t *list,
   return status;
 }
 
-/* Removes 'M' items present at the beginning of the |list|. A decoded SEI is marked
+/* Removes 'M' items present at, or next to, the beginning of the |list|. A decoded SEI is marked
  * as 'U' since it is not associated with this recording. The screening keeps going
  * until we find the decoded SEI. */
 void
@@ -415,8 +415,8 @@ h26x_nalu_list_remove_missing_items(h26x_nalu_list_t *list)
   h26x_nalu_list_item_t *item = list->first_item;
   while (item && !(found_first_pending_nalu && found_decoded_sei)) {
     // Reset the invalid verification failure if we have not past the first pending item.
-    // Remove the missing NALU in the front.
-    if (item->validation_status == 'M' && (item == list->first_item)) {
+    // Remove the missing NALU. It may have been added either before or after the first item.
+    if (item->validation_status == 'M') {
       const h26x_nalu_list_item_t *item_to_remove = item;
       item = item->next;
       h26x_nalu_list_remove_and_free_item(list, item_to_remove);
-- 
2.43.0


From d24c458c198f38b7bc6f73cdd0513340ce687e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:30 +0000
Subject: [PATCH 14/72] fix: do not treat a stream as legacy because of a
 corrupt public key

If the public key in the first SEI could not be read, the session was still
marked as having one. The next NAL Unit, not being a SEI, was then taken for
a legacy SEI and from there on nothing in the stream could be validated.
---
 lib/src/legacy/legacy_tlv.c      | 2 +-
 lib/src/signed_video_h26x_auth.c | 2 +-
 lib/src/signed_video_tlv.c       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index c4e77df..f33e9f9 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -364,11 +364,11 @@ legacy_decode_public_key(legacy_sv_t *self, const uint8_t *data, size_t data_siz
       self->latest_validation->public_key_has_changed = true;
     }
     memcpy(pem_public_key->key, data_ptr, pubkey_size);
-    self->has_public_key = true;
     data_ptr += pubkey_size;
 
     // Convert to EVP_PKEY_CTX
     SV_THROW(openssl_public_key_malloc(self->verify_data, &self->pem_public_key));
+    self->has_public_key = true;
 
 #ifdef SV_VENDOR_AXIS_COMMUNICATIONS
     // If "Axis Communications AB" can be identified from the |product_info|, set |public_key| to
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 848bd6d..2851bb2 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1181,7 +1181,7 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
 
       // Determine if legacy validation should be applied, that is, if the legacy way of
       // using linked hashes and recursive GOP hash is detected.
-      if (!(nalu.reserved_byte & 0x30) && !nalu.is_golden_sei) {
+      if (nalu.is_gop_sei && !(nalu.reserved_byte & 0x30) && !nalu.is_golden_sei) {
         self->legacy_sv = legacy_sv_create(self);
         SV_THROW_IF(!self->legacy_sv, SV_MEMORY);
         accumulated_validation_init(self->accumulated_validation);
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index 6c6e97e..25a5e4c 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -725,11 +725,11 @@ decode_public_key(signed_video_t *self, const uint8_t *data, size_t data_size)
       self->latest_validation->public_key_has_changed = true;
     }
     memcpy(pem_public_key->key, data_ptr, pubkey_size);
-    self->has_public_key = true;
     data_ptr += pubkey_size;
 
     // Convert to EVP_PKEY_CTX
     SV_THROW(openssl_public_key_malloc(self->verify_data, &self->pem_public_key));
+    self->has_public_key = true;
 
 #ifdef SV_VENDOR_AXIS_COMMUNICATIONS
     // If "Axis Communications AB" can be identified from the |product_info|, set |public_key| to
-- 
2.43.0


From efe3924728684f8bf3c1afa96be0b079e4dc47dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:53 +0000
Subject: [PATCH 15/72] fix: do not report a completely lost GOP of one picture
 as authentic

---
 lib/src/signed_video_h26x_auth.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 2851bb2..7c4dc03 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -669,8 +669,8 @@ validate_authenticity(signed_video_t *self)
   // TODO: Move this inside the verify_hashes_ functions. We should not need to perform any special
   // actions on the output.
   if (!validation_flags->is_first_validation) {
-    if ((valid == SV_AUTH_RESULT_OK) && (num_expected_nalus > 1) &&
-        (num_missed_nalus >= num_expected_nalus || num_received_nalus == 0)) {
+    if ((valid == SV_AUTH_RESULT_OK) && (num_received_nalus == 0 ||
+        (num_expected_nalus > 1 && num_missed_nalus >= num_expected_nalus))) {
       valid = SV_AUTH_RESULT_NOT_OK;
     }
     self->gop_info->global_gop_counter_is_synced = true;
-- 
2.43.0


From f610ea4a5a2815b144c98a27252bb22cfa107906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:43 +0000
Subject: [PATCH 16/72] fix: store the data to hash of a SEI hashed without
 emulation prevention bytes

---
 lib/src/signed_video_h26x_nalu_list.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lib/src/signed_video_h26x_nalu_list.c b/lib/src/signed_video_h26x_nalu_list.c
index 115f268..d9e50c8 100644
--- a/lib/src/signed_video_h26x_nalu_list.c
+++ b/lib/src/signed_video_h26x_nalu_list.c
@@ -319,7 +319,6 @@ h26x_nalu_list_copy_last_item(h26x_nalu_list_t *list, bool hash_algo_known)
   while (!(item->nalu)) {
     item = item->prev;
   }
-  int hashable_data_offset = item->nalu->hashable_data - item->nalu->nalu_data;
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
@@ -333,11 +332,20 @@ h26x_nalu_list_copy_last_item(h26x_nalu_list_t *list, bool hash_algo_known)
     }
     // If the library does not know which hash algo to use, store the |hashable_data| for later.
     if (!hash_algo_known) {
-      nalu_data = malloc(item->nalu->nalu_data_size);
+      // If the emulation prevention bytes have been removed before hashing, the |hashable_data| is
+      // not part of the |nalu_data|. It is then stored after the |nalu_data|.
+      const bool is_hashed_wo_epb = item->nalu->nalu_data_wo_epb &&
+          (item->nalu->hashable_data == item->nalu->nalu_data_wo_epb);
+      const size_t nalu_data_size = item->nalu->nalu_data_size;
+      const size_t extra_size = is_hashed_wo_epb ? item->nalu->hashable_data_size : 0;
+      nalu_data = malloc(nalu_data_size + extra_size);
       SV_THROW_IF(!nalu_data, SV_MEMORY);
-      memcpy(nalu_data, item->nalu->nalu_data, item->nalu->nalu_data_size);
-      if (item->nalu->is_hashable) {
-        hashable_data = nalu_data + hashable_data_offset;
+      memcpy(nalu_data, item->nalu->nalu_data, nalu_data_size);
+      if (is_hashed_wo_epb) {
+        hashable_data = nalu_data + nalu_data_size;
+        memcpy(hashable_data, item->nalu->hashable_data, extra_size);
+      } else if (item->nalu->is_hashable) {
+        hashable_data = nalu_data + (item->nalu->hashable_data - item->nalu->nalu_data);
       }
     }
     copy_nalu_except_pointers(copied_nalu, item->nalu);
-- 
2.43.0


From c20efae891a680dc20eb989fe8bfab412e372b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:43 +0000
Subject: [PATCH 17/72] fix: keep track of NALU parts if a part is refused

---
 lib/src/signed_video_h26x_sign.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 9462f89..a981111 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -482,6 +482,11 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
     return SV_INVALID_PARAMETER;
   }
 
+  // Leave the ongoing NALU (part) as is if it cannot be added, since the user is then supposed to add
+  // it again.
+  svrc_t status = prepare_for_nalus_to_prepend(self);
+  if (status != SV_OK) return status;
+
   h26x_nalu_t nalu = {0};
   gop_info_t *gop_info = self->gop_info;
   // TODO: Consider moving this into parse_nalu_info().
@@ -503,10 +508,8 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
     nalu.hashable_data_size = nalu_data_size;
   }
 
-  svrc_t status = SV_UNKNOWN_FAILURE;
+  status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-    SV_THROW(prepare_for_nalus_to_prepend(self));
-
     SV_THROW_IF(nalu.is_valid < 0, SV_INVALID_PARAMETER);
 
     // Note that |recurrence| is counted in frames and not in NALUs, hence we only increment the
-- 
2.43.0


From 6066f5b5fb6dbe95184e2ce48268e63206eccb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:38 +0000
Subject: [PATCH 18/72] fix: count the recurrence interval in frames only

The first payload bit was interpreted as the start of a frame for every type of NAL Unit, hence
parameter sets and SEIs were counted as frames.
---
 lib/src/signed_video_h26x_sign.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index a981111..9443739 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -514,7 +514,8 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
 
     // Note that |recurrence| is counted in frames and not in NALUs, hence we only increment the
     // counter for primary slices.
-    if (nalu.is_primary_slice && nalu.is_last_nalu_part) {
+    const bool is_picture = (nalu.nalu_type == NALU_TYPE_I) || (nalu.nalu_type == NALU_TYPE_P);
+    if (is_picture && nalu.is_primary_slice && nalu.is_last_nalu_part) {
       if ((self->frame_count % self->recurrence) == 0) {
         self->has_recurrent_data = true;
       }
-- 
2.43.0


From da33c18adf287555158b6da156a24f1570b406a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:37 +0000
Subject: [PATCH 19/72] fix: end a GOP without a SEI at the next GOP also if
 other NALUs precede it

---
 lib/src/signed_video_h26x_auth.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 7c4dc03..49dcd49 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -561,7 +561,7 @@ verify_hashes_without_sei(signed_video_t *self)
   int num_marked_items = 0;
   h26x_nalu_list_item_t *item = nalu_list->first_item;
   bool found_next_gop = false;
-  while (item && !found_next_gop) {
+  while (item) {
     // Skip non-pending items.
     if (item->validation_status != 'P') {
       item = item->next;
@@ -572,13 +572,17 @@ verify_hashes_without_sei(signed_video_t *self)
     if (item->nalu->is_gop_sei) {
       break;
     }
+    // Stop verifying at the first NALU of the next GOP. Note that it can be preceded by items that
+    // are not pending.
+    found_next_gop = (num_marked_items > 0) && item->nalu->is_first_nalu_in_gop &&
+        !item->used_for_linked_hash;
+    if (found_next_gop) {
+      break;
+    }
     item->validation_status = 'N';
     num_marked_items++;
 
     item = item->next;
-    if (item) {
-      found_next_gop = item->nalu->is_first_nalu_in_gop && !item->used_for_linked_hash;
-    }
   }
   // If we have verified a GOP without a SEI, we should increment the |global_gop_counter|.
   if (self->validation_flags.signing_present && (num_marked_items > 0)) {
-- 
2.43.0


From 0e737f268feec3b5b6588022b65ea93b1565f582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:29 +0000
Subject: [PATCH 20/72] fix: free the message digest context of the Axis vendor
 handle

---
 lib/vendors/axis-communications/sv_vendor_axis_communications.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 408374c..1840ce7 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -512,6 +512,7 @@ sv_vendor_axis_communications_teardown(void *handle)
 
   free(self->attestation);
   free(self->certificate_chain);
+  EVP_MD_CTX_free(self->md_ctx);
   X509_free(self->trusted_ca);
   free(self);
 }
-- 
2.43.0


From 0b60d45be5a408fad181b5873cbd3cc4598475b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:29 +0000
Subject: [PATCH 21/72] fix: free a certificate in excess of those supported

---
 lib/vendors/axis-communications/sv_vendor_axis_communications.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 1840ce7..9c5f9ef 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -227,6 +227,8 @@ verify_and_parse_certificate_chain(sv_vendor_axis_communications_t *self)
       // Get the next certificate.
       certificate = PEM_read_bio_X509(stackbio, NULL, NULL, NULL);
     }
+    // A certificate that was not pushed is not freed together with the stack.
+    X509_free(certificate);
     SV_THROW_IF(num_certificates > NUM_UNTRUSTED_CERTIFICATES, SV_VENDOR_ERROR);
 
     SV_THROW(verify_certificate_chain(self->trusted_ca, untrusted_certificates));
-- 
2.43.0


From c53725ff13ebc47760636cb7286e89b4894c811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:24 +0000
Subject: [PATCH 22/72] fix: keep a reference to the public key validated with
 the attestation

---
 .../sv_vendor_axis_communications.c             | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 9c5f9ef..ac61fae 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -116,8 +116,8 @@ typedef struct _sv_vendor_axis_communications_t {
   struct attestation_report attestation_report;
 
   // Public key to validate using |attestation| and |certificate_chain|
-  const void *public_key;  // A pointer to the public key used for validation. Assumed to be a
-  // EVP_PKEY struct. Ownership is NOT transferred.
+  EVP_PKEY *public_key;  // The public key used for validation. A reference to the key is kept, since
+  // the key used for validation can be replaced at any time.
 
   // Public key validation results
   sv_vendor_axis_supplemental_authenticity_t supplemental_authenticity;
@@ -375,7 +375,6 @@ verify_axis_communications_public_key(sv_vendor_axis_communications_t *self)
 {
   assert(self);
 
-  EVP_PKEY *pkey = NULL;
   uint8_t *public_key_uncompressed = NULL;
   size_t public_key_uncompressed_size = 0;
   uint8_t *signed_data = NULL;
@@ -388,10 +387,8 @@ verify_axis_communications_public_key(sv_vendor_axis_communications_t *self)
     SV_THROW_IF(!self->md_ctx, SV_VENDOR_ERROR);
     SV_THROW_IF(!self->public_key, SV_NOT_SUPPORTED);
     // Convert |public_key| to uncompressed Weierstrass form which will be part of |signed_data|.
-    // The |public_key| is on EVP_PKEY_CTX form.
-    pkey = EVP_PKEY_CTX_get0_pkey((EVP_PKEY_CTX *)self->public_key);
-    SV_THROW_IF(!pkey, SV_EXTERNAL_ERROR);
-    public_key_uncompressed_size = EVP_PKEY_get1_encoded_public_key(pkey, &public_key_uncompressed);
+    public_key_uncompressed_size =
+        EVP_PKEY_get1_encoded_public_key(self->public_key, &public_key_uncompressed);
     // Check size and prefix of |public_key| after conversion.
     SV_THROW_IF(public_key_uncompressed_size != PUBLIC_KEY_UNCOMPRESSED_SIZE, SV_VENDOR_ERROR);
     SV_THROW_IF(public_key_uncompressed[0] != PUBLIC_KEY_UNCOMPRESSED_PREFIX, SV_VENDOR_ERROR);
@@ -515,6 +512,7 @@ sv_vendor_axis_communications_teardown(void *handle)
   free(self->attestation);
   free(self->certificate_chain);
   EVP_MD_CTX_free(self->md_ctx);
+  EVP_PKEY_free(self->public_key);
   X509_free(self->trusted_ca);
   free(self);
 }
@@ -713,9 +711,12 @@ set_axis_communications_public_key(void *handle,
     }
 
     // The Public key is of correct type and size.
-    self->public_key = public_key;
+    SV_THROW_IF(EVP_PKEY_up_ref(pkey) != 1, SV_EXTERNAL_ERROR);
+    EVP_PKEY_free(self->public_key);
+    self->public_key = pkey;
   SV_CATCH()
   {
+    EVP_PKEY_free(self->public_key);
     self->public_key = NULL;
     public_key_validation = 0;
   }
-- 
2.43.0


From 4882d87f01eb620e7921076912daab1c574ec189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:50 +0000
Subject: [PATCH 23/72] fix: validate the video if the attestation of the
 public key is missing

---
 lib/src/legacy/legacy_h26x_auth.c                          | 5 ++++-
 lib/src/signed_video_h26x_auth.c                           | 5 ++++-
 .../axis-communications/sv_vendor_axis_communications.c    | 7 +++++++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 8f435f3..90d3c92 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -734,7 +734,10 @@ legacy_prepare_for_validation(legacy_sv_t *self)
       sv_vendor_axis_supplemental_authenticity_t *supplemental_authenticity = NULL;
       SV_THROW(get_axis_communications_supplemental_authenticity(
           self->vendor_handle, &supplemental_authenticity));
-      if (strcmp(self->product_info->serial_number, supplemental_authenticity->serial_number)) {
+      const bool is_feasible = supplemental_authenticity->public_key_validation >= 0;
+      const char *serial_number = self->product_info->serial_number;
+      if (is_feasible &&
+          (!serial_number || strcmp(serial_number, supplemental_authenticity->serial_number))) {
         self->latest_validation->public_key_validation = SV_PUBKEY_VALIDATION_NOT_OK;
       } else {
         // Convert to SignedVideoPublicKeyValidation
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 49dcd49..b64a6a2 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -829,7 +829,10 @@ prepare_for_validation(signed_video_t *self)
       sv_vendor_axis_supplemental_authenticity_t *supplemental_authenticity = NULL;
       SV_THROW(get_axis_communications_supplemental_authenticity(
           self->vendor_handle, &supplemental_authenticity));
-      if (strcmp(self->product_info->serial_number, supplemental_authenticity->serial_number)) {
+      const bool is_feasible = supplemental_authenticity->public_key_validation >= 0;
+      const char *serial_number = self->product_info->serial_number;
+      if (is_feasible &&
+          (!serial_number || strcmp(serial_number, supplemental_authenticity->serial_number))) {
         self->latest_validation->public_key_validation = SV_PUBKEY_VALIDATION_NOT_OK;
       } else {
         // Convert to SignedVideoPublicKeyValidation
diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index ac61fae..4727d34 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -735,6 +735,13 @@ get_axis_communications_supplemental_authenticity(void *handle,
 
   sv_vendor_axis_communications_t *self = (sv_vendor_axis_communications_t *)handle;
 
+  // Without an attestation, a certificate chain or a public key from the stream it is not feasible
+  // to validate the public key, but the video can still be validated.
+  if (!self->attestation || !self->certificate_chain || !self->public_key) {
+    *supplemental_authenticity = &self->supplemental_authenticity;
+    return SV_OK;
+  }
+
   // TODO: Fill in the skeleton below step by step.
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-- 
2.43.0


From 7c775a8ab272b02ae8a60724682fc5b8bb3b33e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:39 +0000
Subject: [PATCH 24/72] fix: validate the video if the public key is on another
 curve than P-256

---
 .../axis-communications/sv_vendor_axis_communications.c       | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 4727d34..7ab46f2 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -707,7 +707,9 @@ set_axis_communications_public_key(void *handle,
       char group_name[100];
       SV_THROW_IF(EVP_PKEY_get_group_name(pkey, group_name, sizeof(group_name), NULL) != 1,
           SV_EXTERNAL_ERROR);
-      SV_THROW_IF(strcmp(group_name, SN_X9_62_prime256v1) != 0, SV_VENDOR_ERROR);
+      if (strcmp(group_name, SN_X9_62_prime256v1) != 0) {
+        public_key_validation = 0;
+      }
     }
 
     // The Public key is of correct type and size.
-- 
2.43.0


From eaeb2800a6f4f6a3e798b923992db05425b750eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:46 +0000
Subject: [PATCH 25/72] fix: skip the attestation if the certificate chain is
 incomplete

---
 lib/vendors/axis-communications/sv_vendor_axis_communications.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 7ab46f2..51ee63c 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -565,6 +565,8 @@ encode_axis_communications_handle(void *handle, uint16_t *last_two_bytes, bool e
 
   // If there is no attestation or certificate chain, skip encoding, that is return 0.
   if (!self->attestation || !self->certificate_chain) return 0;
+  // An incomplete certificate chain cannot be decoded.
+  if (certificate_chain_encode_size == 0) return 0;
 
   // Version 1:
   //  - version (1 byte)
-- 
2.43.0


From d98c7de7b7290ef6fbd1ec009a4d861e821d4de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:00 +0000
Subject: [PATCH 26/72] fix: parse a SEI with a public key outside of a
 validation

---
 lib/src/signed_video_tlv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index 25a5e4c..9ea9e24 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -738,7 +738,7 @@ decode_public_key(signed_video_t *self, const uint8_t *data, size_t data_size)
         strcmp(self->product_info->manufacturer, "Axis Communications AB") == 0) {
       // Set public key.
       SV_THROW(set_axis_communications_public_key(self->vendor_handle, self->verify_data->key,
-          self->latest_validation->public_key_has_changed));
+          self->latest_validation && self->latest_validation->public_key_has_changed));
     }
 #endif
 
-- 
2.43.0


From be539c4be59d7d4c68d23d72c68023be603ee3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:22 +0000
Subject: [PATCH 27/72] fix: compute legacy GOP hashes with the hash size in
 use

---
 lib/src/legacy/legacy_h26x_auth.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 90d3c92..22aa9fe 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -616,6 +616,8 @@ legacy_compute_gop_hash(legacy_sv_t *self, legacy_h26x_nalu_list_item_t *sei)
   const size_t hash_size = self->verify_data->hash_size;
   legacy_h26x_nalu_list_item_t *item = NULL;
   legacy_gop_info_t *gop_info = self->gop_info;
+  // The hash size may have changed with the hash algorithm.
+  gop_info->nalu_hash = gop_info->hashes + hash_size;
   uint8_t *nalu_hash = gop_info->nalu_hash;
 
   // h26x_nalu_list_print(nalu_list);
-- 
2.43.0


From c09d5d9ba5bcd0845e2595f3ca52d84429053812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:45 +0000
Subject: [PATCH 28/72] fix: do not use the public key of a golden SEI that
 could not be decoded

---
 lib/src/signed_video_h26x_auth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index b64a6a2..d468461 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -776,6 +776,10 @@ prepare_golden_sei(signed_video_t *self, h26x_nalu_list_item_t *sei)
     self->gop_state.has_sei = true;
     SV_THROW(prepare_for_validation(self));
   SV_CATCH()
+  {
+    // The public key comes from a SEI that could not be verified.
+    self->has_public_key = false;
+  }
   SV_DONE(status)
 
   return status;
-- 
2.43.0


From 06b114b2169c2def65ab037838c82f6df6e667b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:31 +0000
Subject: [PATCH 29/72] fix: keep the authenticity level when generating a
 golden SEI

---
 lib/src/signed_video_h26x_sign.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 9443739..0f908e9 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -760,7 +760,6 @@ signed_video_generate_golden_sei(signed_video_t *self)
   // recurrent data, hence |has_recurrent_data| is set to true.
   self->is_golden_sei = true;
   self->has_recurrent_data = true;
-  self->authenticity_level = SV_AUTHENTICITY_LEVEL_FRAME;
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-- 
2.43.0


From 804b7694461aad9ef5b084e806aff51c4ade549d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:21 +0000
Subject: [PATCH 30/72] fix: keep the signature buffer if setting another
 private key fails

---
 lib/src/signed_video_openssl.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index ccc6c41..7493dfc 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -102,6 +102,7 @@ openssl_private_key_malloc(sign_or_verify_data_t *sign_data,
 
   EVP_PKEY_CTX *ctx = NULL;
   EVP_PKEY *signing_key = NULL;
+  uint8_t *signature = NULL;
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
@@ -114,8 +115,8 @@ openssl_private_key_malloc(sign_or_verify_data_t *sign_data,
     // Read the maximum size of the signature that the |private_key| can generate
     size_t max_signature_size = EVP_PKEY_size(signing_key);
     SV_THROW_IF(max_signature_size == 0, SV_EXTERNAL_ERROR);
-    sign_data->signature = malloc(max_signature_size);
-    SV_THROW_IF(!sign_data->signature, SV_MEMORY);
+    signature = malloc(max_signature_size);
+    SV_THROW_IF(!signature, SV_MEMORY);
     // Create a context from the |signing_key|
     ctx = EVP_PKEY_CTX_new(signing_key, NULL /* no engine */);
     SV_THROW_IF(!ctx, SV_EXTERNAL_ERROR);
@@ -128,13 +129,15 @@ openssl_private_key_malloc(sign_or_verify_data_t *sign_data,
       SV_THROW_IF(EVP_PKEY_CTX_set_signature_md(ctx, EVP_sha256()) <= 0, SV_EXTERNAL_ERROR);
     }
 
-    // Set the content in |sign_data|
+    // Set the content in |sign_data|. Free what is left from a previous key.
+    free(sign_data->signature);
+    sign_data->signature = signature;
+    EVP_PKEY_CTX_free(sign_data->key);
     sign_data->max_signature_size = max_signature_size;
     sign_data->key = ctx;
   SV_CATCH()
   {
-    free(sign_data->signature);
-    sign_data->signature = NULL;
+    free(signature);
     EVP_PKEY_CTX_free(ctx);
     ctx = NULL;
   }
-- 
2.43.0


From 7e3fd906db830285394507e8ca5a3ad22912fd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:38 +0000
Subject: [PATCH 31/72] fix: tear down the signing plugin session of a replaced
 private key

---
 lib/src/signed_video_h26x_sign.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 0f908e9..14d63c2 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -810,14 +810,18 @@ signed_video_set_private_key_new(signed_video_t *self,
 {
   if (!self || !private_key || private_key_size == 0) return SV_INVALID_PARAMETER;
 
+  void *plugin_handle = NULL;
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     // Temporally turn the PEM |private_key| into an EVP_PKEY and allocate memory for signatures.
     SV_THROW(openssl_private_key_malloc(self->sign_data, private_key, private_key_size));
     SV_THROW(openssl_read_pubkey_from_private_key(self->sign_data, &self->pem_public_key));
 
-    self->plugin_handle = sv_signing_plugin_session_setup(private_key, private_key_size);
-    SV_THROW_IF(!self->plugin_handle, SV_EXTERNAL_ERROR);
+    plugin_handle = sv_signing_plugin_session_setup(private_key, private_key_size);
+    SV_THROW_IF(!plugin_handle, SV_EXTERNAL_ERROR);
+    // Tear down the session of a previous private key.
+    sv_signing_plugin_session_teardown(self->plugin_handle);
+    self->plugin_handle = plugin_handle;
   SV_CATCH()
   SV_DONE(status)
 
-- 
2.43.0


From fefe33c89ec03a9a3712978c51615605e4e16146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:09 +0000
Subject: [PATCH 32/72] fix: allow setting the public key after an unsuccessful
 attempt

---
 lib/src/signed_video_h26x_auth.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index d468461..dececcf 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1265,6 +1265,12 @@ signed_video_set_public_key(signed_video_t *self, const char *public_key, size_t
     self->has_public_key = true;
 
   SV_CATCH()
+  {
+    // Without a public key in use, a new attempt to set one is allowed.
+    free(self->pem_public_key.key);
+    self->pem_public_key.key = NULL;
+    self->pem_public_key.key_size = 0;
+  }
   SV_DONE(status)
 
   return status;
-- 
2.43.0


From 8576fff6c353dbf1fda7e6cc4f12c1e9b5759609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:38 +0000
Subject: [PATCH 33/72] fix: keep the hash algorithm if the new one is not
 available

---
 lib/src/signed_video_openssl.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 7493dfc..72ea57c 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -456,22 +456,32 @@ openssl_set_hash_algo(void *handle, const char *name_or_oid)
   }
 
   ASN1_OBJECT *hash_algo_obj = NULL;
+  message_digest_t hash_algo = {0};
+  EVP_MD_CTX *ctx = NULL;
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     hash_algo_obj = OBJ_txt2obj(name_or_oid, 0 /* Accept both name and OID */);
     SV_THROW_IF_WITH_MSG(!hash_algo_obj, SV_INVALID_PARAMETER,
         "Could not identify hashing algorithm: %s", name_or_oid);
-    SV_THROW(obj_to_oid_and_type(&self->hash_algo, hash_algo_obj));
-    // Free the context to be able to assign a new message digest type to it.
+    SV_THROW(obj_to_oid_and_type(&hash_algo, hash_algo_obj));
+    // Make sure that the hashing algorithm is available before replacing the current one.
+    ctx = EVP_MD_CTX_new();
+    SV_THROW_IF(!ctx, SV_EXTERNAL_ERROR);
+    SV_THROW_IF(EVP_DigestInit_ex(ctx, hash_algo.type, NULL) != 1, SV_EXTERNAL_ERROR);
+    free(self->hash_algo.encoded_oid);
+    self->hash_algo = hash_algo;
+    // Free the contexts to be able to assign a new message digest type to them.
     EVP_MD_CTX_free(self->primary_ctx);
     self->primary_ctx = NULL;
     EVP_MD_CTX_free(self->secondary_ctx);
-    self->secondary_ctx = NULL;
-
-    SV_THROW(openssl_init_hash(self, false));
+    self->secondary_ctx = ctx;
     DEBUG_LOG("Setting hash algo %s that has ASN.1/DER coded OID length %zu", name_or_oid,
         self->hash_algo.encoded_oid_size);
   SV_CATCH()
+  {
+    EVP_MD_CTX_free(ctx);
+    free(hash_algo.encoded_oid);
+  }
   SV_DONE(status)
 
   ASN1_OBJECT_free(hash_algo_obj);
-- 
2.43.0


From 4d93ba5bb9205dddd35668014f34aef840dbe029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:51 +0000
Subject: [PATCH 34/72] fix: do not add recurrent data because of a golden SEI
 that was not generated

---
 lib/src/signed_video_h26x_sign.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 14d63c2..0992d5c 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -758,6 +758,7 @@ signed_video_generate_golden_sei(signed_video_t *self)
   uint8_t *payload_signature_ptr = NULL;
   // The flag |is_golden_sei| will mark the next SEI as golden and should include
   // recurrent data, hence |has_recurrent_data| is set to true.
+  const bool has_recurrent_data = self->has_recurrent_data;
   self->is_golden_sei = true;
   self->has_recurrent_data = true;
 
@@ -768,6 +769,9 @@ signed_video_generate_golden_sei(signed_video_t *self)
     add_payload_to_buffer(self, payload, payload_signature_ptr);
 
   SV_CATCH()
+  {
+    self->has_recurrent_data = has_recurrent_data;
+  }
   SV_DONE(status)
   // Reset the |is_golden_sei| flag, ensuring that a golden SEI is not
   // generated outside of this API.
-- 
2.43.0


From 72c2f50ff83b40607212dcf9a17af3c25445baab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:05 +0000
Subject: [PATCH 35/72] fix: report a changed public key also if the SEI cannot
 be decoded or is golden

---
 lib/src/legacy/legacy_h26x_auth.c | 11 +++++++++--
 lib/src/signed_video_h26x_auth.c  | 26 +++++++++++++++++++-------
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 22aa9fe..d96085b 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -922,7 +922,6 @@ legacy_maybe_validate_gop(legacy_sv_t *self, legacy_h26x_nalu_t *nalu)
       latest->number_of_expected_picture_nalus = -1;
       latest->number_of_received_picture_nalus = -1;
       latest->number_of_pending_picture_nalus = -1;
-      latest->public_key_has_changed = false;
 
       SV_THROW(legacy_prepare_for_validation(self));
 
@@ -1021,6 +1020,10 @@ legacy_sv_add_h26x_nalu(legacy_sv_t *self, const uint8_t *nalu_data, size_t nalu
   legacy_h26x_nalu_t nalu =
       legacy_parse_nalu_info(nalu_data, nalu_data_size, self->codec, true, true);
   DEBUG_LOG("Received a %s of size %zu B", legacy_nalu_type_to_str(&nalu), nalu.nalu_data_size);
+  // A change of public key is kept until it has been reported.
+  if (self->validation_flags.has_auth_result) {
+    self->latest_validation->public_key_has_changed = false;
+  }
   self->validation_flags.has_auth_result = false;
 
   self->accumulated_validation->number_of_received_nalus++;
@@ -1041,7 +1044,11 @@ legacy_sv_add_h26x_nalu(legacy_sv_t *self, const uint8_t *nalu_data, size_t nalu
   svrc_t copy_nalu_status = legacy_h26x_nalu_list_copy_last_item(nalu_list);
   // Make sure to return the first failure if both operations failed.
   status = (status == SV_OK) ? copy_nalu_status : status;
-  if (status != SV_OK) nalu_list->last_item->validation_status = 'E';
+  if (status != SV_OK) {
+    nalu_list->last_item->validation_status = 'E';
+    // Nothing is reported upon failure.
+    self->validation_flags.has_auth_result = false;
+  }
 
   free(nalu.nalu_data_wo_epb);
 
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index dececcf..94e6eb0 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -756,7 +756,7 @@ remove_used_in_gop_hash(h26x_nalu_list_t *nalu_list)
  * for authenticity.
  */
 static svrc_t
-prepare_golden_sei(signed_video_t *self, h26x_nalu_list_item_t *sei)
+prepare_golden_sei(signed_video_t *self, h26x_nalu_list_item_t *sei, bool had_public_key)
 {
   assert(self);
   sign_or_verify_data_t *verify_data = self->verify_data;
@@ -777,8 +777,8 @@ prepare_golden_sei(signed_video_t *self, h26x_nalu_list_item_t *sei)
     SV_THROW(prepare_for_validation(self));
   SV_CATCH()
   {
-    // The public key comes from a SEI that could not be verified.
-    self->has_public_key = false;
+    // A first public key comes from a SEI that could not be verified.
+    self->has_public_key = had_public_key;
   }
   SV_DONE(status)
 
@@ -810,7 +810,6 @@ prepare_for_validation(signed_video_t *self)
     if (sei) {
       if (!sei->has_been_decoded) {
         // Decode the SEI and set signature->hash
-        self->latest_validation->public_key_has_changed = false;
         const uint8_t *tlv_data = sei->nalu->tlv_data;
         size_t tlv_size = sei->nalu->tlv_size;
         SV_THROW(decode_sei_data(self, tlv_data, tlv_size));
@@ -992,7 +991,9 @@ maybe_validate_gop(signed_video_t *self, h26x_nalu_t *nalu)
           case 1:
             // Signature verified successfully.
             nalu_list->last_item->validation_status = '.';
-            latest->authenticity = SV_AUTH_RESULT_SIGNATURE_PRESENT;
+            latest->authenticity = latest->public_key_has_changed
+                ? SV_AUTH_RESULT_NOT_OK
+                : SV_AUTH_RESULT_SIGNATURE_PRESENT;
             break;
           case 0:
             // Signature verification failed.
@@ -1160,10 +1161,15 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
   h26x_nalu_list_t *nalu_list = self->nalu_list;
   h26x_nalu_t nalu = parse_nalu_info(nalu_data, nalu_data_size, self->codec, true, true);
   DEBUG_LOG("Received a %s of size %zu B", nalu_type_to_str(&nalu), nalu.nalu_data_size);
+  // A change of public key is kept until it has been reported.
+  if (self->validation_flags.has_auth_result) {
+    self->latest_validation->public_key_has_changed = false;
+  }
   self->validation_flags.has_auth_result = false;
 
   self->accumulated_validation->number_of_received_nalus++;
 
+  const bool had_public_key = self->has_public_key;
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     // If there is no |nalu_list| we failed allocating memory for it.
@@ -1188,7 +1194,9 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
         DEBUG_LOG("No cryptographic information found in SEI. Using default hash algo");
         self->validation_flags.hash_algo_known = true;
       }
-      if (nalu.is_golden_sei) SV_THROW(prepare_golden_sei(self, nalu_list->last_item));
+      if (nalu.is_golden_sei) {
+        SV_THROW(prepare_golden_sei(self, nalu_list->last_item, had_public_key));
+      }
 
       // Determine if legacy validation should be applied, that is, if the legacy way of
       // using linked hashes and recursive GOP hash is detected.
@@ -1208,7 +1216,11 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
       h26x_nalu_list_copy_last_item(nalu_list, self->validation_flags.hash_algo_known);
   // Make sure to return the first failure if both operations failed.
   status = (status == SV_OK) ? copy_nalu_status : status;
-  if (status != SV_OK) nalu_list->last_item->validation_status = 'E';
+  if (status != SV_OK) {
+    nalu_list->last_item->validation_status = 'E';
+    // Nothing is reported upon failure.
+    self->validation_flags.has_auth_result = false;
+  }
 
   free(nalu.nalu_data_wo_epb);
 
-- 
2.43.0


From 92478330ce54673011ad44180c7db64558f8dfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:25 +0000
Subject: [PATCH 36/72] fix: keep the accumulated result if the video has been
 found not authentic

---
 lib/src/signed_video_authenticity.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_authenticity.c b/lib/src/signed_video_authenticity.c
index 6064c86..3b44eba 100644
--- a/lib/src/signed_video_authenticity.c
+++ b/lib/src/signed_video_authenticity.c
@@ -226,9 +226,11 @@ update_accumulated_validation(const signed_video_latest_validation_t *latest,
     // Still either pending validation or video has no signature. Update with the result from
     // |latest|.
     accumulated->authenticity = latest->authenticity;
-  } else if (latest->authenticity < accumulated->authenticity) {
+  } else if (latest->authenticity < accumulated->authenticity &&
+      accumulated->authenticity != SV_AUTH_RESULT_NOT_OK) {
     // |latest| has validated a worse authenticity compared to what we have validated so far. Update
-    // with this worse result, since that is what should rule the total validation.
+    // with this worse result, since that is what should rule the total validation. Note that a
+    // video which is not authentic stays so even if |latest| could not be validated.
     accumulated->authenticity = latest->authenticity;
   }
 
-- 
2.43.0


From 99141a6953941791652147da53828203942e8f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:49 +0000
Subject: [PATCH 37/72] fix: allow a SEI without any data

---
 lib/src/legacy/legacy_h26x_auth.c | 2 +-
 lib/src/signed_video_h26x_auth.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index d96085b..5ac34c9 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -56,7 +56,7 @@ static const char *kLegacyAuthResultValidStr[SV_AUTH_NUM_SIGNED_GOP_VALID_STATES
 static svrc_t
 legacy_decode_sei_data(legacy_sv_t *self, const uint8_t *payload, size_t payload_size)
 {
-  assert(self && payload && (payload_size > 0));
+  assert(self);
   // Get the last GOP counter before updating.
   uint32_t last_gop_number = self->gop_info->global_gop_counter;
   uint32_t exp_gop_number = last_gop_number + 1;
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 94e6eb0..fcd7a41 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -77,7 +77,7 @@ static const char *kAuthResultValidStr[SV_AUTH_NUM_SIGNED_GOP_VALID_STATES] = {"
 static svrc_t
 decode_sei_data(signed_video_t *self, const uint8_t *payload, size_t payload_size)
 {
-  assert(self && payload && (payload_size > 0));
+  assert(self);
   DEBUG_LOG("SEI payload size = %zu, exp gop number = %u", payload_size,
       self->gop_info->latest_validated_gop + 1);
   svrc_t status = SV_UNKNOWN_FAILURE;
-- 
2.43.0


From db5f123160a60709e2dfba4fdf20fb265eda2129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:04 +0000
Subject: [PATCH 38/72] fix: do not go through the list for each missing NAL
 Unit

---
 lib/src/signed_video_h26x_nalu_list.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/src/signed_video_h26x_nalu_list.c b/lib/src/signed_video_h26x_nalu_list.c
index d9e50c8..6d108d3 100644
--- a/lib/src/signed_video_h26x_nalu_list.c
+++ b/lib/src/signed_video_h26x_nalu_list.c
@@ -197,11 +197,11 @@ h26x_nalu_list_remove_and_free_item(h26x_nalu_list_t *list,
   if (item->prev) item->prev->next = item->next;
   if (item->next) item->next->prev = item->prev;
 
-  // Fix the broken list. To use h26x_nalu_list_refresh(), first_item needs to be part of the list.
-  // If |item_to_remove| was that first_item, we need to set a new one.
+  // Fix the broken list. If |item_to_remove| was the first_item, or the last_item, we need to set a
+  // new one.
   if (list->first_item == item) list->first_item = item->next;
   if (list->last_item == item) list->last_item = item->prev;
-  h26x_nalu_list_refresh(list);
+  list->num_items--;
 
   h26x_nalu_list_item_free(item);
 }
@@ -399,12 +399,14 @@ h26x_nalu_list_add_missing(h26x_nalu_list_t *list,
       } else {
         h26x_nalu_list_item_prepend_item(item, missing_nalu);
       }
-      h26x_nalu_list_refresh(list);
     }
 
   SV_CATCH()
   SV_DONE(status)
 
+  // The number of missing NALUs is up to the stream, hence refresh the list only once.
+  h26x_nalu_list_refresh(list);
+
   if (added_items > 0) DEBUG_LOG("Added %d missing NALU items to list", added_items);
 
   return status;
-- 
2.43.0


From 7408828709cd02e5d88e90b4a89bfbd9afd37d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:16 +0000
Subject: [PATCH 39/72] fix: copy the last NAL Unit also if missing ones have
 been added after it (legacy)

---
 lib/src/legacy/legacy_h26x_nalu_list.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/legacy/legacy_h26x_nalu_list.c b/lib/src/legacy/legacy_h26x_nalu_list.c
index 57d343e..d1d7eb4 100644
--- a/lib/src/legacy/legacy_h26x_nalu_list.c
+++ b/lib/src/legacy/legacy_h26x_nalu_list.c
@@ -258,6 +258,10 @@ legacy_h26x_nalu_list_copy_last_item(legacy_h26x_nalu_list_t *list)
   legacy_h26x_nalu_t *copied_nalu = NULL;
   uint8_t *nalu_data_wo_epb = NULL;
   legacy_h26x_nalu_list_item_t *item = list->last_item;
+  // Missing NALUs may have been added after the last NALU and cannot be copied.
+  while (item->prev && !item->nalu) {
+    item = item->prev;
+  }
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-- 
2.43.0


From 1da640ae8e934118530de9dedd0f8c3dc406b216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:23 +0000
Subject: [PATCH 40/72] fix: do not go through the list for each missing NAL
 Unit (legacy)

---
 lib/src/legacy/legacy_h26x_nalu_list.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_nalu_list.c b/lib/src/legacy/legacy_h26x_nalu_list.c
index d1d7eb4..79b183b 100644
--- a/lib/src/legacy/legacy_h26x_nalu_list.c
+++ b/lib/src/legacy/legacy_h26x_nalu_list.c
@@ -144,11 +144,11 @@ legacy_h26x_nalu_list_remove_and_free_item(legacy_h26x_nalu_list_t *list,
   if (item->prev) item->prev->next = item->next;
   if (item->next) item->next->prev = item->prev;
 
-  // Fix the broken list. To use legacy_h26x_nalu_list_refresh(), first_item needs to be part of the
-  // list. If |item_to_remove| was that first_item, we need to set a new one.
+  // Fix the broken list. If |item_to_remove| was the first_item, or the last_item, we need to set a
+  // new one.
   if (list->first_item == item) list->first_item = item->next;
   if (list->last_item == item) list->last_item = item->prev;
-  legacy_h26x_nalu_list_refresh(list);
+  list->num_items--;
 
   legacy_h26x_nalu_list_item_free(item);
 }
@@ -321,12 +321,14 @@ legacy_h26x_nalu_list_add_missing(legacy_h26x_nalu_list_t *list,
       } else {
         legacy_h26x_nalu_list_item_prepend_item(item, missing_nalu);
       }
-      legacy_h26x_nalu_list_refresh(list);
     }
 
   SV_CATCH()
   SV_DONE(status)
 
+  // The number of missing NALUs is up to the stream, hence refresh the list only once.
+  legacy_h26x_nalu_list_refresh(list);
+
   if (added_items > 0) DEBUG_LOG("Added %d missing NALU items to list", added_items);
 
   return status;
-- 
2.43.0


From 044ebd263df05a3703b39ed8b6e60a74ac4ac419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:42 +0000
Subject: [PATCH 41/72] fix: no authentic result without verified hashes
 (legacy)

---
 lib/src/legacy/legacy_h26x_auth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 5ac34c9..64b20d7 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -525,6 +525,10 @@ legacy_validate_authenticity(legacy_sv_t *self)
   DEBUG_LOG("Number of missed NALUs = %d.", num_missed_nalus);
 
   valid = (num_invalid_nalus > 0) ? SV_AUTH_RESULT_NOT_OK : SV_AUTH_RESULT_OK;
+  // Without a verified signature, or with hashes that could not be verified, nothing is authentic.
+  if (self->gop_info->verified_signature_hash != 1 || !verify_success) {
+    valid = SV_AUTH_RESULT_NOT_OK;
+  }
 
   // Post-validation actions.
 
-- 
2.43.0


From aac74c222783d55bab8b0d403ada36ab4b840c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:47 +0000
Subject: [PATCH 42/72] fix: free the arbitrary data of a session

---
 lib/src/legacy/legacy_h26x_common.c | 1 +
 lib/src/signed_video_h26x_common.c  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lib/src/legacy/legacy_h26x_common.c b/lib/src/legacy/legacy_h26x_common.c
index dab01a4..9c25c39 100644
--- a/lib/src/legacy/legacy_h26x_common.c
+++ b/lib/src/legacy/legacy_h26x_common.c
@@ -969,6 +969,7 @@ legacy_sv_free(legacy_sv_t *self)
 
   free(self->gop_info);
   free(self->pem_public_key.key);
+  free(self->arbitrary_data);
 
   free(self);
 }
diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index 0f87f49..031d717 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -1280,6 +1280,7 @@ signed_video_free(signed_video_t *self)
   sign_or_verify_data_free(self->sign_data);
   sign_or_verify_data_free(self->verify_data);
   free(self->pem_public_key.key);
+  free(self->arbitrary_data);
 
   free(self);
 }
-- 
2.43.0


From ca4aa113776c8aa37da680ef9e85281653700d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:15 +0000
Subject: [PATCH 43/72] fix: report if the private key could not be written to
 file

---
 lib/src/signed_video_openssl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 72ea57c..34adb23 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -615,6 +615,8 @@ write_private_key_to_file(EVP_PKEY *pkey, const char *path_to_key)
     f_private = fopen(path_to_key, "wb");
     SV_THROW_IF(!f_private, SV_EXTERNAL_ERROR);
     SV_THROW_IF(!PEM_write_PrivateKey(f_private, pkey, NULL, 0, 0, NULL, NULL), SV_EXTERNAL_ERROR);
+    // The file is buffered, hence it may not be possible to write it until now.
+    SV_THROW_IF(fflush(f_private) != 0, SV_EXTERNAL_ERROR);
   SV_CATCH()
   {
     if (f_private) unlink(path_to_key);
-- 
2.43.0


From d57d2b0a154440afc5b3d4160a7b97c936a9fcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:37 +0000
Subject: [PATCH 44/72] fix: do not read before an empty path to the private
 key

---
 lib/src/signed_video_openssl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 34adb23..d0bda9d 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -717,7 +717,7 @@ get_path_to_key(const char *dir_to_key, const char *key_filename)
 
   strcpy(str, dir_to_key);
   // Add '/' if not exists
-  if (dir_to_key[path_len - 1] != '/') strcat(str, "/");
+  if (path_len > 0 && dir_to_key[path_len - 1] != '/') strcat(str, "/");
   strcat(str, key_filename);
 
   return str;
-- 
2.43.0


From 7004e463ee11f094301b7591b270578b47958424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:57 +0000
Subject: [PATCH 45/72] fix: drop unsigned SEIs when the private key is changed

---
 lib/src/signed_video_h26x_sign.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 0992d5c..c386e1a 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -826,6 +826,12 @@ signed_video_set_private_key_new(signed_video_t *self,
     // Tear down the session of a previous private key.
     sv_signing_plugin_session_teardown(self->plugin_handle);
     self->plugin_handle = plugin_handle;
+    // The signatures not yet fetched were lost with the previous session, hence the SEIs waiting for
+    // them cannot be completed. Further, these SEIs are allocated for the previous private key.
+    while (self->sei_data_buffer_idx > self->num_of_completed_seis) {
+      free(self->sei_data_buffer[self->sei_data_buffer_idx - 1].sei);
+      shift_sei_buffer_at_index(self, self->sei_data_buffer_idx - 1);
+    }
   SV_CATCH()
   SV_DONE(status)
 
-- 
2.43.0


From 33b489f5684fea5efacad1bc151a2165ee49e968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:39 +0000
Subject: [PATCH 46/72] fix: validate the video even if the attestation
 signature is malformed

---
 .../axis-communications/sv_vendor_axis_communications.c        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 51ee63c..7ee0e24 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -456,7 +456,8 @@ verify_axis_communications_public_key(sv_vendor_axis_communications_t *self)
     verified_signature = EVP_DigestVerify(self->md_ctx,
         self->attestation_report.attestation_list.signature,
         self->attestation_report.attestation_list.signature_size, signed_data, SIGNED_DATA_SIZE);
-    SV_THROW_IF(verified_signature < 0, SV_EXTERNAL_ERROR);
+    // A negative value is (also) returned if the signature is malformed.
+    SV_THROW_IF(verified_signature < 0, SV_VENDOR_ERROR);
 
     // If verification fails (is 0) the result should never be overwritten with success (1) later.
     self->supplemental_authenticity.public_key_validation &= verified_signature;
-- 
2.43.0


From e4e0d719db5ad93bc711b6dceee8ec3d05bedef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:12 +0000
Subject: [PATCH 47/72] fix: do not write a too long serial number outside its
 buffer

---
 .../axis-communications/sv_vendor_axis_communications.c        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 7ee0e24..d53302a 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -260,6 +260,9 @@ verify_and_parse_certificate_chain(sv_vendor_axis_communications_t *self)
     // Found serial number in certificate. Read that entry and convert to UTF8.
     entry_data = X509_NAME_ENTRY_get_data(X509_NAME_get_entry(subject, ser_no_index));
     SV_THROW_IF(ASN1_STRING_to_UTF8(&serial_number_str, entry_data) <= 0, SV_EXTERNAL_ERROR);
+    // The serial number has to fit, including the null-terminated character.
+    SV_THROW_IF(
+        strlen((char *)serial_number_str) >= SV_VENDOR_AXIS_SER_NO_MAX_LENGTH, SV_VENDOR_ERROR);
     // Copy only if necessary.
     if (strcmp(self->supplemental_authenticity.serial_number, (char *)serial_number_str)) {
       memset(self->supplemental_authenticity.serial_number, 0, SV_VENDOR_AXIS_SER_NO_MAX_LENGTH);
-- 
2.43.0


From 2ce22e6a74101116526726d742207c77bb157711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:41 +0000
Subject: [PATCH 48/72] fix: do not set the attestation if the certificate
 chain is refused

---
 .../axis-communications/sv_vendor_axis_communications.c    | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index d53302a..00fdbe7 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -795,10 +795,11 @@ sv_vendor_axis_communications_set_attestation_report(signed_video_t *sv,
   sv_vendor_axis_communications_t *self = (sv_vendor_axis_communications_t *)sv->vendor_handle;
   bool allocated_attestation = false;
   bool allocated_certificate_chain = false;
+  // If |attestation| or |certificate_chain| already exists, return error without setting the other.
+  if (attestation && self->attestation) return SV_NOT_SUPPORTED;
+  if (certificate_chain && self->certificate_chain) return SV_NOT_SUPPORTED;
   // The user wants to set the |attestation|.
   if (attestation) {
-    // If |attestation| already exists, return error.
-    if (self->attestation) return SV_NOT_SUPPORTED;
     // Allocate memory and copy to |self|.
     self->attestation = malloc(attestation_size);
     allocated_attestation = true;
@@ -809,8 +810,6 @@ sv_vendor_axis_communications_set_attestation_report(signed_video_t *sv,
 
   // The user wants to set the |certificate_chain|.
   if (certificate_chain) {
-    // If |certificate_chain| already exists, return error.
-    if (self->certificate_chain) return SV_NOT_SUPPORTED;
     // Check if there is anything to copy.
     size_t certificate_chain_size = strlen(certificate_chain);
     if (certificate_chain_size == 0) goto catch_error;
-- 
2.43.0


From 59c1a3ffafdec14b47bac640ba1cacf451fb3acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:27 +0000
Subject: [PATCH 49/72] fix: let a session get its signatures although those of
 another session are older

---
 lib/plugins/threaded-signing/plugin.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index c37600b..1914c98 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -278,8 +278,8 @@ done:
 }
 
 /* If
- *   1. the |id| matches the oldest |out|, and
- *   2. the signature in |out| has been copied to |signature|
+ *   1. there is a signature in |out| which matches the |id|, and
+ *   2. the oldest of these signatures has been copied to |signature|
  * then returns true, otherwise false.
  * Moves the signatures in |out| forward when the copy is done. */
 static bool
@@ -303,30 +303,31 @@ get_signature(threaded_data_t *self,
     goto done;
   }
 
-  // Return if there are no signatures in the buffer
-  if (self->out_idx == 0) goto done;
+  // Find the oldest signature of this session. Signatures of other sessions may be older.
+  int idx = 0;
+  while (idx < self->out_idx && self->out[idx].id != id) idx++;
 
-  // Return if next signature belongs to a different session.
-  if (self->out[0].id != id) goto done;
+  // Return if there are no signatures in the buffer
+  if (idx == self->out_idx) goto done;
 
   *written_signature_size = 0;
-  if (self->out[0].signing_error) {
+  if (self->out[idx].signing_error) {
     // Propagate SV_EXTERNAL_ERROR when signing failed.
     status = SV_EXTERNAL_ERROR;
-  } else if (self->out[0].size > max_signature_size) {
+  } else if (self->out[idx].size > max_signature_size) {
     // There is no room to copy the signature, set status to invalid parameter.
     status = SV_INVALID_PARAMETER;
   } else {
     // Copy the oldest signature
-    memcpy(signature, self->out[0].signature, self->out[0].size);
-    *written_signature_size = self->out[0].size;
+    memcpy(signature, self->out[idx].signature, self->out[idx].size);
+    *written_signature_size = self->out[idx].size;
     // Mark as copied.
     has_copied_signature = true;
   }
   // Move buffer
-  signature_data_t tmp = self->out[0];
+  signature_data_t tmp = self->out[idx];
   reset_signature_buffer(&tmp);
-  int i = 1;
+  int i = idx + 1;
   while (i < MAX_BUFFER_LENGTH) {
     self->out[i - 1] = self->out[i];
     i++;
-- 
2.43.0


From 399b6832ea26f8309106130916cb0373c7491fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:16 +0000
Subject: [PATCH 50/72] fix: drop the SEI whose signing failed, not the
 signatures of all later SEIs

---
 lib/src/signed_video_h26x_sign.c | 65 +++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 27 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index c386e1a..c54bb96 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -102,6 +102,34 @@ add_payload_to_buffer(signed_video_t *self, uint8_t *payload, uint8_t *payload_s
   self->sei_data_buffer_idx += 1;
 }
 
+/* Removes the specified index element from the SEI buffer of a `signed_video_t` structure by
+ * shifting remaining elements left and clearing the last slot.
+ */
+static void
+shift_sei_buffer_at_index(signed_video_t *self, int index)
+{
+  const int sei_data_buffer_end = self->sei_data_buffer_idx;
+  for (int j = index; j < sei_data_buffer_end - 1; j++) {
+    self->sei_data_buffer[j] = self->sei_data_buffer[j + 1];
+  }
+  self->sei_data_buffer[sei_data_buffer_end - 1].sei = NULL;
+  self->sei_data_buffer[sei_data_buffer_end - 1].write_position = NULL;
+  self->sei_data_buffer[sei_data_buffer_end - 1].last_two_bytes = LAST_TWO_BYTES_INIT_VALUE;
+  self->sei_data_buffer[sei_data_buffer_end - 1].completed_sei_size = 0;
+  self->sei_data_buffer_idx -= 1;
+}
+
+/* Removes the oldest SEI that has not been completed with a signature, that is, the video will have
+ * an unsigned GOP. */
+static void
+remove_oldest_pending_sei(signed_video_t *self)
+{
+  const int index = self->num_of_completed_seis;
+  if (index >= self->sei_data_buffer_idx) return;
+  free(self->sei_data_buffer[index].sei);
+  shift_sei_buffer_at_index(self, index);
+}
+
 /* Picks the oldest payload from the |sei_data_buffer| and completes it with the generated signature
  * and the stop byte. If we have no signature the SEI payload is freed and not added to the
  * video session. */
@@ -124,7 +152,7 @@ complete_sei_nalu_and_add_to_prepend(signed_video_t *self)
   // move on. This is a valid operation. What will happen is that the video will have an unsigned
   // GOP.
   if (self->sign_data->signature_size == 0) {
-    signed_video_nalu_data_free(payload);
+    remove_oldest_pending_sei(self);
     status = SV_OK;
     goto done;
   } else if (!payload) {
@@ -144,7 +172,7 @@ complete_sei_nalu_and_add_to_prepend(signed_video_t *self)
 
   // Unset flag when SEI is completed and prepended.
   // Note: If signature could not be generated then nalu data is freed. See
-  // |signed_video_nalu_data_free| above in this function. In this case the flag is still set and
+  // |remove_oldest_pending_sei| above in this function. In this case the flag is still set and
   // a SEI with all metatdata is created next time.
   self->has_recurrent_data = false;
   return SV_OK;
@@ -154,23 +182,6 @@ done:
   return status;
 }
 
-/* Removes the specified index element from the SEI buffer of a `signed_video_t` structure by
- * shifting remaining elements left and clearing the last slot.
- */
-static void
-shift_sei_buffer_at_index(signed_video_t *self, int index)
-{
-  const int sei_data_buffer_end = self->sei_data_buffer_idx;
-  for (int j = index; j < sei_data_buffer_end - 1; j++) {
-    self->sei_data_buffer[j] = self->sei_data_buffer[j + 1];
-  }
-  self->sei_data_buffer[sei_data_buffer_end - 1].sei = NULL;
-  self->sei_data_buffer[sei_data_buffer_end - 1].write_position = NULL;
-  self->sei_data_buffer[sei_data_buffer_end - 1].last_two_bytes = LAST_TWO_BYTES_INIT_VALUE;
-  self->sei_data_buffer[sei_data_buffer_end - 1].completed_sei_size = 0;
-  self->sei_data_buffer_idx -= 1;
-}
-
 /* This function generates a SEI NALU of type "user data unregistered". The payload encoded in this
  * SEI is constructed using a set of TLVs. The TLVs are organized as follows;
  *  | metadata | maybe hash_list | signature |
@@ -567,7 +578,7 @@ get_signature_complete_sei_and_add_to_prepend(signed_video_t *self)
   svrc_t status = SV_UNKNOWN_FAILURE;
 
   SV_TRY()
-    SignedVideoReturnCode signature_error = SV_UNKNOWN_FAILURE;
+    SignedVideoReturnCode signature_error = SV_OK;
     sign_or_verify_data_t *sign_data = self->sign_data;
     while (sv_signing_plugin_get_signature(self->plugin_handle, sign_data->signature,
         sign_data->max_signature_size, &sign_data->signature_size, &signature_error)) {
@@ -597,6 +608,12 @@ get_signature_complete_sei_and_add_to_prepend(signed_video_t *self)
 #endif
       SV_THROW(complete_sei_nalu_and_add_to_prepend(self));
     }
+    if (signature_error != SV_OK) {
+      // The oldest SEI will not get any signature. Remove it, since the next signature belongs to
+      // the next SEI.
+      remove_oldest_pending_sei(self);
+    }
+    SV_THROW(signature_error);
 
   SV_CATCH()
   SV_DONE(status)
@@ -735,13 +752,7 @@ signed_video_set_end_of_stream(signed_video_t *self)
     SV_THROW(generate_sei_nalu(self, &payload, &payload_signature_ptr));
     add_payload_to_buffer(self, payload, payload_signature_ptr);
     // Fetch the signature. If it is not ready we exit without generating the SEI.
-    sign_or_verify_data_t *sign_data = self->sign_data;
-    SignedVideoReturnCode signature_error = SV_UNKNOWN_FAILURE;
-    while (sv_signing_plugin_get_signature(self->plugin_handle, sign_data->signature,
-        sign_data->max_signature_size, &sign_data->signature_size, &signature_error)) {
-      SV_THROW(signature_error);
-      SV_THROW(complete_sei_nalu_and_add_to_prepend(self));
-    }
+    SV_THROW(get_signature_complete_sei_and_add_to_prepend(self));
 
   SV_CATCH()
   SV_DONE(status)
-- 
2.43.0


From 6d0d1882a0a209ff32996e9cafba9d1af8156956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:43 +0000
Subject: [PATCH 51/72] fix: keep the request for recurrent data made while a
 SEI waits for its signature

---
 lib/src/signed_video_h26x_sign.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index c54bb96..730a6c5 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -128,6 +128,8 @@ remove_oldest_pending_sei(signed_video_t *self)
   if (index >= self->sei_data_buffer_idx) return;
   free(self->sei_data_buffer[index].sei);
   shift_sei_buffer_at_index(self, index);
+  // Create a SEI with all metadata next time.
+  self->has_recurrent_data = true;
 }
 
 /* Picks the oldest payload from the |sei_data_buffer| and completes it with the generated signature
@@ -170,11 +172,6 @@ complete_sei_nalu_and_add_to_prepend(signed_video_t *self)
   }
   self->num_of_completed_seis++;
 
-  // Unset flag when SEI is completed and prepended.
-  // Note: If signature could not be generated then nalu data is freed. See
-  // |remove_oldest_pending_sei| above in this function. In this case the flag is still set and
-  // a SEI with all metatdata is created next time.
-  self->has_recurrent_data = false;
   return SV_OK;
 
 done:
@@ -376,6 +373,9 @@ generate_sei_nalu(signed_video_t *self, uint8_t **payload, uint8_t **payload_sig
     gop_info->has_timestamp = false;
 
     SV_THROW(sv_signing_plugin_sign(self->plugin_handle, sign_data->hash, sign_data->hash_size));
+    // Unset flag when the SEI has been generated. It may be set again, by a frame of the next GOP,
+    // before the SEI is completed.
+    self->has_recurrent_data = false;
   SV_CATCH()
   {
     DEBUG_LOG("Failed generating the SEI");
-- 
2.43.0


From 8a02107dc26b7053a8c8add87a6d1ea1009751da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:54 +0000
Subject: [PATCH 52/72] fix: let sessions with different hash algorithms share
 the signing thread

---
 lib/plugins/threaded-signing/plugin.c | 46 ++++++++++-----------------
 1 file changed, 16 insertions(+), 30 deletions(-)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index 1914c98..2b4e09e 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -208,7 +208,6 @@ free_plugin(threaded_data_t *self)
 
 /* This function is, via sv_signing_plugin_sign(), called from the library upon signing.
  *
- * If this is the first time of signing, memory for |self->sign_data->hash| is allocated.
  * The |hash| is copied to |in|. If memory for the |in| hash has not been allocated it will be
  * allocated. */
 static SignedVideoReturnCode
@@ -234,19 +233,10 @@ sign_hash(threaded_data_t *self, unsigned id, const uint8_t *hash, size_t hash_s
   // Signing from a central thread. The |sign_data| should have been allocated when
   // the plugin was initialized.
   assert(self->sign_data);
-  // Allocate memory for the hash slot in |sign_data| if this is the first time,
-  // since it is now known to the signing plugin and cannot be changed.
-  if (!self->sign_data->hash) {
-    self->sign_data->hash = calloc(1, hash_size);
-    if (!self->sign_data->hash) {
-      // Failed in memory allocation.
-      status = SV_MEMORY;
-      goto done;
-    }
-    self->sign_data->hash_size = hash_size;
-  }
-
-  if (!self->in[idx].hash) {
+  // Allocate memory for the hash if this is the first time the slot is used, or if it was used for
+  // a hash of a different size. The size differs between sessions using different hash algorithms.
+  if (self->in[idx].size != hash_size) {
+    free_hash_buffer(&self->in[idx]);
     self->in[idx].hash = calloc(1, hash_size);
     if (!self->in[idx].hash) {
       // Failed in memory allocation.
@@ -256,12 +246,6 @@ sign_hash(threaded_data_t *self, unsigned id, const uint8_t *hash, size_t hash_s
     self->in[idx].size = hash_size;
   }
 
-  // The |hash_size| has to be fixed throughout the session.
-  if (self->in[idx].size != hash_size) {
-    status = SV_NOT_SUPPORTED;
-    goto done;
-  }
-
   // Copy the |hash| ready for signing.
   memcpy(self->in[idx].hash, hash, hash_size);
   self->in[idx].id = id;
@@ -448,14 +432,15 @@ central_worker_thread(void *user_data)
     if (central.in_idx > 0) {
       SignedVideoReturnCode status = SV_UNKNOWN_FAILURE;
       // Get the oldest hash from the input buffer
-      // Copy the hash to |sign_data| and start signing.
-      assert(central.in[0].size == central.sign_data->hash_size);
-      assert(central.sign_data->hash);
-      memcpy(central.sign_data->hash, central.in[0].hash, central.in[0].size);
+      // Hand it over to |sign_data|, in exchange for the previous hash, and start signing.
+      hash_data_t tmp = central.in[0];
+      tmp.hash = central.sign_data->hash;
+      tmp.size = central.sign_data->hash_size;
+      central.sign_data->hash = central.in[0].hash;
+      central.sign_data->hash_size = central.in[0].size;
       id_in_signing = central.in[0].id;
 
       // Move the oldest input buffer to end of queue for reuse at a later stage.
-      hash_data_t tmp = central.in[0];
       reset_hash_buffer(&tmp);
       int j = 1;
       while (j < MAX_BUFFER_LENGTH) {
@@ -605,13 +590,14 @@ local_worker_thread(void *user_data)
   while (self->is_running) {
     if (self->in_idx > 0) {
       // Get the oldest hash from the input buffer
-      // Copy the hash to |sign_data| and start signing.
-      assert(self->in[0].size == self->sign_data->hash_size);
-      assert(self->sign_data->hash);
-      memcpy(self->sign_data->hash, self->in[0].hash, self->in[0].size);
+      // Hand it over to |sign_data|, in exchange for the previous hash, and start signing.
+      hash_data_t tmp = self->in[0];
+      tmp.hash = self->sign_data->hash;
+      tmp.size = self->sign_data->hash_size;
+      self->sign_data->hash = self->in[0].hash;
+      self->sign_data->hash_size = self->in[0].size;
 
       // Move the oldest input buffer to end of queue for reuse at a later stage.
-      hash_data_t tmp = self->in[0];
       int j = 0;
       while (self->in[j + 1].hash != NULL && j < MAX_BUFFER_LENGTH - 1) {
         self->in[j] = self->in[j + 1];
-- 
2.43.0


From c406239a36429213e73c2826c85e566308ac3db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:47 +0000
Subject: [PATCH 53/72] fix: do not overflow the NALU to prepend if another SEI
 is completed meanwhile

---
 lib/src/signed_video_h26x_sign.c | 50 ++++++++++----------------------
 1 file changed, 16 insertions(+), 34 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 730a6c5..3061487 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -620,31 +620,6 @@ get_signature_complete_sei_and_add_to_prepend(signed_video_t *self)
   return status;
 }
 
-static svrc_t
-get_latest_sei(signed_video_t *self, uint8_t *sei, size_t *sei_size)
-{
-  if (!self || !sei_size) return SV_INVALID_PARAMETER;
-  *sei_size = 0;
-
-  svrc_t status = get_signature_complete_sei_and_add_to_prepend(self);
-  if (status != SV_OK) return status;
-  if (self->num_of_completed_seis < 1) {
-    DEBUG_LOG("There are no completed seis.");
-    return SV_OK;
-  }
-
-  *sei_size = self->sei_data_buffer[self->num_of_completed_seis - 1].completed_sei_size;
-  if (!sei) return SV_OK;
-  // Copy SEI data to the provided pointer.
-  memcpy(sei, self->sei_data_buffer[self->num_of_completed_seis - 1].sei, *sei_size);
-
-  // Reset the fetched SEI information from the sei buffer.
-  free(self->sei_data_buffer[self->num_of_completed_seis - 1].sei);
-  --(self->num_of_completed_seis);
-  shift_sei_buffer_at_index(self, self->num_of_completed_seis);
-  return SV_OK;
-}
-
 SignedVideoReturnCode
 signed_video_get_sei(signed_video_t *self,
     uint8_t *sei,
@@ -720,16 +695,23 @@ signed_video_get_nalu_to_prepend(signed_video_t *self,
   nalu_to_prepend->nalu_data = NULL;
   nalu_to_prepend->nalu_data_size = 0;
   nalu_to_prepend->prepend_instruction = SIGNED_VIDEO_PREPEND_NOTHING;
-  // Directly pass the members of nalu_to_prepend as arguments to get_latest_sei().
-  size_t *sei_size = &nalu_to_prepend->nalu_data_size;
-  // Get the size from get_latest_sei() and check if its success.
-  svrc_t status = get_latest_sei(self, NULL, sei_size);
-  if (SV_OK == status && *sei_size != 0) {
-    nalu_to_prepend->nalu_data = malloc(*sei_size);
-    nalu_to_prepend->prepend_instruction = SIGNED_VIDEO_PREPEND_NALU;
-    status = get_latest_sei(self, nalu_to_prepend->nalu_data, &nalu_to_prepend->nalu_data_size);
+
+  svrc_t status = get_signature_complete_sei_and_add_to_prepend(self);
+  if (status != SV_OK) return status;
+  if (self->num_of_completed_seis < 1) {
+    DEBUG_LOG("There are no completed seis.");
+    return SV_OK;
   }
-  return status;
+
+  // Hand over the latest completed SEI.
+  --(self->num_of_completed_seis);
+  sei_data_t *sei_data = &self->sei_data_buffer[self->num_of_completed_seis];
+  nalu_to_prepend->nalu_data = sei_data->sei;
+  nalu_to_prepend->nalu_data_size = sei_data->completed_sei_size;
+  nalu_to_prepend->prepend_instruction = SIGNED_VIDEO_PREPEND_NALU;
+  shift_sei_buffer_at_index(self, self->num_of_completed_seis);
+
+  return SV_OK;
 }
 
 void
-- 
2.43.0


From 4f31af39e13579c1ad81728f67e5641cdf9c2a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:43 +0000
Subject: [PATCH 54/72] fix: keep the hashes of a session until there is room
 for their signatures

---
 lib/plugins/threaded-signing/plugin.c | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index 2b4e09e..b0cdda2 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -28,8 +28,9 @@
  *
  * If the plugin is initialized, sv_signing_plugin_init(), one single central thread is spawned.
  * Each Signed Video session will then get an id to distiguish between them since they use common
- * input and output buffers. The thread is stopped if 1) the out buffer is full, 2) there was a
- * failure in the memory allocation for a new signature or 3) sv_signing_plugin_exit() is called.
+ * input and output buffers. The thread waits if the out buffer is full, and is stopped if 1) there
+ * was a failure in the memory allocation for a new signature or 2) sv_signing_plugin_exit() is
+ * called.
  */
 
 #include <assert.h>
@@ -318,6 +319,8 @@ get_signature(threaded_data_t *self,
   }
   self->out[MAX_BUFFER_LENGTH - 1] = tmp;
   self->out_idx--;
+  // The worker thread may be waiting for room in |out|.
+  g_cond_signal(&self->cond);
 
 done:
   g_mutex_unlock(&self->mutex);
@@ -429,7 +432,8 @@ central_worker_thread(void *user_data)
   g_cond_signal(&(central.cond));
 
   while (central.is_running) {
-    if (central.in_idx > 0) {
+    // Only sign if there is room for the signature. The hash remains in the input buffer until then.
+    if (central.in_idx > 0 && central.out_idx < MAX_BUFFER_LENGTH) {
       SignedVideoReturnCode status = SV_UNKNOWN_FAILURE;
       // Get the oldest hash from the input buffer
       // Hand it over to |sign_data|, in exchange for the previous hash, and start signing.
@@ -465,15 +469,6 @@ central_worker_thread(void *user_data)
       }
 
       int idx = central.out_idx;
-      if (idx >= MAX_BUFFER_LENGTH) {
-        // |out| is full. Buffers this long are not supported.
-        // There are no means to signal an error to the signing session. Flush all buffers for this
-        // id and move on.
-        status = SV_NOT_SUPPORTED;
-        buffer_reset(id_in_signing);
-        continue;
-      }
-
       // If not successfully done with signing, set |signing_error| to true to
       // report the error when getting the signature.
       central.out[idx].signing_error = (status != SV_OK);
@@ -499,7 +494,7 @@ central_worker_thread(void *user_data)
       }
       central.out_idx++;
     } else {
-      // Wait for a signal, triggered when it is time to sign a hash.
+      // Wait for a signal, triggered when it is time to sign a hash or when there is room again.
       g_cond_wait(&(central.cond), &(central.mutex));
     }
   }
@@ -565,6 +560,8 @@ central_teardown(central_threaded_data_t *self)
   g_mutex_lock(&(central.mutex));
   buffer_reset(self->id);
   delete_item(self->id);
+  // The worker thread may be waiting for room in the output buffer.
+  g_cond_signal(&(central.cond));
   g_mutex_unlock(&(central.mutex));
 
   free(self);
-- 
2.43.0


From e346041d8462582a6ae7af615a3588957962fc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:31 +0000
Subject: [PATCH 55/72] fix: free the signing session if its thread cannot be
 started

---
 lib/plugins/threaded-signing/plugin.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index b0cdda2..d68fc5b 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -694,6 +694,7 @@ local_setup(const void *private_key, size_t private_key_size)
 
 catch_error:
   free_plugin(self);
+  free(self);
   return NULL;
 }
 
-- 
2.43.0


From b64ee8a1ef410cc2fb30312488704a428ed87c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:10 +0000
Subject: [PATCH 56/72] fix: do not read beyond the buffer of hashes when it is
 full

---
 lib/plugins/threaded-signing/plugin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index d68fc5b..e2bfbce 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -596,7 +596,7 @@ local_worker_thread(void *user_data)
 
       // Move the oldest input buffer to end of queue for reuse at a later stage.
       int j = 0;
-      while (self->in[j + 1].hash != NULL && j < MAX_BUFFER_LENGTH - 1) {
+      while (j < MAX_BUFFER_LENGTH - 1 && self->in[j + 1].hash != NULL) {
         self->in[j] = self->in[j + 1];
         j++;
       }
-- 
2.43.0


From 2314a016cd7212a4ba033535b5739074518660ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:18 +0000
Subject: [PATCH 57/72] fix: let a NALU refused for lack of room for its SEI be
 added again

---
 lib/src/signed_video_h26x_sign.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 3061487..97c5d3f 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -523,6 +523,14 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
   SV_TRY()
     SV_THROW_IF(nalu.is_valid < 0, SV_INVALID_PARAMETER);
 
+    // Refuse the NALU, before anything is changed, if it ends a GOP and there is no room for its SEI.
+    // The user is supposed to fetch the SEIs and add the NALU (part) again.
+    if (nalu.is_first_nalu_in_gop && nalu.is_last_nalu_part && self->sei_generation_enabled &&
+        self->sei_data_buffer_idx >= MAX_SEI_DATA_BUFFER) {
+      self->last_nalu->is_last_nalu_part = nalu.is_first_nalu_part;
+      SV_THROW_WITH_MSG(SV_NOT_SUPPORTED, "There is no room for another SEI.");
+    }
+
     // Note that |recurrence| is counted in frames and not in NALUs, hence we only increment the
     // counter for primary slices.
     const bool is_picture = (nalu.nalu_type == NALU_TYPE_I) || (nalu.nalu_type == NALU_TYPE_P);
-- 
2.43.0


From dfa685d666426404ebc7b41ad2d9bb42d0b3ddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:23 +0000
Subject: [PATCH 58/72] fix: leave only the GOP unsigned whose signing fails

---
 lib/src/includes/signed_video_sign.h |  2 ++
 lib/src/signed_video_h26x_sign.c     | 19 ++++++++++++++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/lib/src/includes/signed_video_sign.h b/lib/src/includes/signed_video_sign.h
index ba4f65f..196281b 100644
--- a/lib/src/includes/signed_video_sign.h
+++ b/lib/src/includes/signed_video_sign.h
@@ -125,6 +125,8 @@ typedef enum {
  *                             there are generated NALUs waiting to be pulled. Use
  *                             signed_video_get_nalu_to_prepend(...) to fetch them. Then call this
  *                             function again to process the |nalu_data|.
+ *          SV_EXTERNAL_ERROR - the GOP ended by this NALU could not be signed. The NALU has been added,
+ *                             but there will be no SEI for that GOP.
  *          otherwise a different error code.
  */
 SignedVideoReturnCode
diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 97c5d3f..8f5ecb8 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -520,6 +520,7 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
   }
 
   status = SV_UNKNOWN_FAILURE;
+  svrc_t sei_status = SV_OK;
   SV_TRY()
     SV_THROW_IF(nalu.is_valid < 0, SV_INVALID_PARAMETER);
 
@@ -554,9 +555,20 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
 
         // If there are hashes added to the hash list, the |computed_gop_hash| can be finalized.
         SV_THROW(openssl_finalize_hash(self->crypto_handle, gop_info->computed_gop_hash, true));
-        SV_THROW(generate_sei_nalu(self, &payload, &payload_signature_ptr));
-        // Add |payload| to buffer. Will be picked up again when the signature has been generated.
-        add_payload_to_buffer(self, payload, payload_signature_ptr);
+        sei_status = generate_sei_nalu(self, &payload, &payload_signature_ptr);
+        if (sei_status == SV_OK) {
+          // Add |payload| to buffer. Will be picked up again when the signature has been generated.
+          add_payload_to_buffer(self, payload, payload_signature_ptr);
+        } else {
+          // The video will have an unsigned GOP. Start a new GOP with this NALU and report the error
+          // when it has been added.
+          gop_info->num_nalus_in_gop_hash = 0;
+          gop_info->list_idx = 0;
+          gop_info->has_reference_hash = false;
+          gop_info->has_timestamp = false;
+          // Do not confuse this with a NALU that was refused.
+          if (sei_status == SV_NOT_SUPPORTED) sei_status = SV_EXTERNAL_ERROR;
+        }
         // The previous GOP is now completed. The gop_hash was reset right after signing and
         // adding it to the SEI.
       }
@@ -566,6 +578,7 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
     if (nalu.is_first_nalu_in_gop && nalu.is_last_nalu_part) {
       SV_THROW(update_linked_hash(self, gop_info->nalu_hash, self->sign_data->hash_size));
     }
+    SV_THROW(sei_status);
 
   SV_CATCH()
   SV_DONE(status)
-- 
2.43.0


From 2d85489755e332a60b3f8cea41c06318b4935a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:19 +0000
Subject: [PATCH 59/72] fix: fail creating a session instead of crashing
 without memory

---
 lib/src/signed_video_h26x_common.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index 031d717..f25bfdd 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -1180,6 +1180,7 @@ signed_video_create(SignedVideoCodec codec)
     self->sei_epb = true;
     self->signing_started = false;
     self->sign_data = sign_or_verify_data_create();
+    SV_THROW_IF(!self->sign_data, SV_MEMORY);
     self->sign_data->hash_size = openssl_get_hash_size(self->crypto_handle);
     // Make sure the hash size matches the default hash size.
     SV_THROW_IF(self->sign_data->hash_size != DEFAULT_HASH_SIZE, SV_EXTERNAL_ERROR);
@@ -1205,6 +1206,7 @@ signed_video_create(SignedVideoCodec codec)
     self->has_public_key = false;
 
     self->verify_data = sign_or_verify_data_create();
+    SV_THROW_IF(!self->verify_data, SV_MEMORY);
     self->verify_data->hash_size = openssl_get_hash_size(self->crypto_handle);
   SV_CATCH()
   {
-- 
2.43.0


From d774e3befcea4339ee2eac6b48866727da927345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:19 +0000
Subject: [PATCH 60/72] fix: give no authenticity report instead of crashing
 without memory

---
 lib/src/signed_video_authenticity.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/signed_video_authenticity.c b/lib/src/signed_video_authenticity.c
index 3b44eba..5806a4a 100644
--- a/lib/src/signed_video_authenticity.c
+++ b/lib/src/signed_video_authenticity.c
@@ -382,6 +382,10 @@ signed_video_authenticity_report_create()
   if (!auth) return NULL;
 
   authenticity_report_init(auth);
+  if (!auth->version_on_signing_side || !auth->this_version) {
+    signed_video_authenticity_report_free(auth);
+    return NULL;
+  }
 
   return auth;
 }
-- 
2.43.0


From d17817cb3dc69554facf955920054935063121de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:19 +0000
Subject: [PATCH 61/72] fix: do not crash if a NALU to validate cannot be
 stored for lack of memory

---
 lib/src/signed_video_h26x_auth.c      | 20 +++++++++++++++-----
 lib/src/signed_video_h26x_nalu_list.c |  4 +++-
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index fcd7a41..ce82500 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1116,6 +1116,12 @@ reregister_nalus(signed_video_t *self)
   h26x_nalu_list_item_t *item = nalu_list->first_item;
   svrc_t status = SV_UNKNOWN_FAILURE;
   while (item) {
+    if (!item->nalu) {
+      // There is nothing to hash, since the NALU is missing or could not be copied.
+      status = SV_OK;
+      item = item->next;
+      continue;
+    }
     if (self->legacy_sv) {
       // Pass in all, but the last one (the SEI), to the created legacy session. Do this
       // without requesting an authenticity report.
@@ -1170,6 +1176,7 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
   self->accumulated_validation->number_of_received_nalus++;
 
   const bool had_public_key = self->has_public_key;
+  bool is_added = false;
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     // If there is no |nalu_list| we failed allocating memory for it.
@@ -1178,6 +1185,7 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
     // Append the |nalu_list| with a new item holding a pointer to |nalu|. The |validation_status|
     // is set accordingly.
     SV_THROW(h26x_nalu_list_append(nalu_list, &nalu));
+    is_added = true;
     SV_THROW_IF(nalu.is_valid < 0, SV_UNKNOWN_FAILURE);
     update_validation_flags(&self->validation_flags, &nalu);
     SV_THROW(register_nalu(self, nalu_list->last_item));
@@ -1212,12 +1220,14 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
   SV_DONE(status)
 
   // Need to make a copy of the |nalu| independently of failure.
-  svrc_t copy_nalu_status =
-      h26x_nalu_list_copy_last_item(nalu_list, self->validation_flags.hash_algo_known);
-  // Make sure to return the first failure if both operations failed.
-  status = (status == SV_OK) ? copy_nalu_status : status;
+  if (is_added) {
+    svrc_t copy_nalu_status =
+        h26x_nalu_list_copy_last_item(nalu_list, self->validation_flags.hash_algo_known);
+    // Make sure to return the first failure if both operations failed.
+    status = (status == SV_OK) ? copy_nalu_status : status;
+    if (status != SV_OK) nalu_list->last_item->validation_status = 'E';
+  }
   if (status != SV_OK) {
-    nalu_list->last_item->validation_status = 'E';
     // Nothing is reported upon failure.
     self->validation_flags.has_auth_result = false;
   }
diff --git a/lib/src/signed_video_h26x_nalu_list.c b/lib/src/signed_video_h26x_nalu_list.c
index 6d108d3..7c9828b 100644
--- a/lib/src/signed_video_h26x_nalu_list.c
+++ b/lib/src/signed_video_h26x_nalu_list.c
@@ -356,9 +356,11 @@ h26x_nalu_list_copy_last_item(h26x_nalu_list_t *list, bool hash_algo_known)
     copied_nalu->hashable_data = hashable_data;
   SV_CATCH()
   {
-    free(nalu_data_wo_epb);  // At this point, nalu_data_wo_epb is actually NULL.
+    free(nalu_data_wo_epb);
     free(copied_nalu);
     copied_nalu = NULL;
+    // Without a NALU it cannot be validated.
+    item->validation_status = 'E';
   }
   SV_DONE(status)
 
-- 
2.43.0


From 506d68f009cf59c456334a013f2ab45cc160fe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:30 +0000
Subject: [PATCH 62/72] fix: keep the public key if there is no memory for
 another one

---
 lib/src/legacy/legacy_tlv.c | 5 +++--
 lib/src/signed_video_tlv.c  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index f33e9f9..f35c470 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -353,9 +353,10 @@ legacy_decode_public_key(legacy_sv_t *self, const uint8_t *data, size_t data_siz
     SV_THROW_IF(pubkey_size == 0, SV_AUTHENTICATION_ERROR);
 
     if (pem_public_key->key_size != pubkey_size) {
+      void *key = calloc(1, pubkey_size);
+      SV_THROW_IF(!key, SV_MEMORY);
       free(pem_public_key->key);
-      pem_public_key->key = calloc(1, pubkey_size);
-      SV_THROW_IF(!pem_public_key->key, SV_MEMORY);
+      pem_public_key->key = key;
       pem_public_key->key_size = pubkey_size;
     }
 
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index 9ea9e24..1050692 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -714,9 +714,10 @@ decode_public_key(signed_video_t *self, const uint8_t *data, size_t data_size)
     SV_THROW_IF(pubkey_size == 0, SV_AUTHENTICATION_ERROR);
 
     if (pem_public_key->key_size != pubkey_size) {
+      void *key = calloc(1, pubkey_size);
+      SV_THROW_IF(!key, SV_MEMORY);
       free(pem_public_key->key);
-      pem_public_key->key = calloc(1, pubkey_size);
-      SV_THROW_IF(!pem_public_key->key, SV_MEMORY);
+      pem_public_key->key = key;
       pem_public_key->key_size = pubkey_size;
     }
 
-- 
2.43.0


From 27991ba18cc8c678bbbb3572e127fe74e54da772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:31 +0000
Subject: [PATCH 63/72] fix: do not crash if a NALU in the legacy format cannot
 be stored for lack of memory

---
 lib/src/legacy/legacy_h26x_auth.c      | 12 ++++++++----
 lib/src/legacy/legacy_h26x_nalu_list.c |  4 +++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 64b20d7..5b9b354 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -1032,11 +1032,13 @@ legacy_sv_add_h26x_nalu(legacy_sv_t *self, const uint8_t *nalu_data, size_t nalu
 
   self->accumulated_validation->number_of_received_nalus++;
 
+  bool is_added = false;
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     // Append the |nalu_list| with a new item holding a pointer to |nalu|. The |validation_status|
     // is set accordingly.
     SV_THROW(legacy_h26x_nalu_list_append(nalu_list, &nalu));
+    is_added = true;
     SV_THROW_IF(nalu.is_valid < 0, SV_UNKNOWN_FAILURE);
     legacy_update_validation_flags(&self->validation_flags, &nalu);
     SV_THROW(legacy_register_nalu(self, nalu_list->last_item));
@@ -1045,11 +1047,13 @@ legacy_sv_add_h26x_nalu(legacy_sv_t *self, const uint8_t *nalu_data, size_t nalu
   SV_DONE(status)
 
   // Need to make a copy of the |nalu| independently of failure.
-  svrc_t copy_nalu_status = legacy_h26x_nalu_list_copy_last_item(nalu_list);
-  // Make sure to return the first failure if both operations failed.
-  status = (status == SV_OK) ? copy_nalu_status : status;
+  if (is_added) {
+    svrc_t copy_nalu_status = legacy_h26x_nalu_list_copy_last_item(nalu_list);
+    // Make sure to return the first failure if both operations failed.
+    status = (status == SV_OK) ? copy_nalu_status : status;
+    if (status != SV_OK) nalu_list->last_item->validation_status = 'E';
+  }
   if (status != SV_OK) {
-    nalu_list->last_item->validation_status = 'E';
     // Nothing is reported upon failure.
     self->validation_flags.has_auth_result = false;
   }
diff --git a/lib/src/legacy/legacy_h26x_nalu_list.c b/lib/src/legacy/legacy_h26x_nalu_list.c
index 79b183b..1bb5383 100644
--- a/lib/src/legacy/legacy_h26x_nalu_list.c
+++ b/lib/src/legacy/legacy_h26x_nalu_list.c
@@ -278,9 +278,11 @@ legacy_h26x_nalu_list_copy_last_item(legacy_h26x_nalu_list_t *list)
     copied_nalu->tlv_data = copied_nalu->nalu_data_wo_epb;
   SV_CATCH()
   {
-    free(nalu_data_wo_epb);  // At this point, nalu_data_wo_epb is actually NULL.
+    free(nalu_data_wo_epb);
     free(copied_nalu);
     copied_nalu = NULL;
+    // Without a NALU it cannot be validated.
+    item->validation_status = 'E';
   }
   SV_DONE(status)
 
-- 
2.43.0


From 2adb26a7f2b131e64b21b4ded6f7b2acd855d180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:10 +0000
Subject: [PATCH 64/72] fix: keep the private key if another one cannot be set

---
 lib/src/signed_video_h26x_sign.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 8f5ecb8..478cd58 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -829,14 +829,22 @@ signed_video_set_private_key_new(signed_video_t *self,
   if (!self || !private_key || private_key_size == 0) return SV_INVALID_PARAMETER;
 
   void *plugin_handle = NULL;
+  // Read the key into temporary objects, to keep a previous private key upon failure.
+  sign_or_verify_data_t sign_data = {0};
+  pem_pkey_t pem_public_key = {0};
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     // Temporally turn the PEM |private_key| into an EVP_PKEY and allocate memory for signatures.
-    SV_THROW(openssl_private_key_malloc(self->sign_data, private_key, private_key_size));
-    SV_THROW(openssl_read_pubkey_from_private_key(self->sign_data, &self->pem_public_key));
+    SV_THROW(openssl_private_key_malloc(&sign_data, private_key, private_key_size));
+    SV_THROW(openssl_read_pubkey_from_private_key(&sign_data, &pem_public_key));
 
     plugin_handle = sv_signing_plugin_session_setup(private_key, private_key_size);
     SV_THROW_IF(!plugin_handle, SV_EXTERNAL_ERROR);
+    free(self->sign_data->signature);
+    self->sign_data->signature = sign_data.signature;
+    self->sign_data->max_signature_size = sign_data.max_signature_size;
+    free(self->pem_public_key.key);
+    self->pem_public_key = pem_public_key;
     // Tear down the session of a previous private key.
     sv_signing_plugin_session_teardown(self->plugin_handle);
     self->plugin_handle = plugin_handle;
@@ -847,11 +855,14 @@ signed_video_set_private_key_new(signed_video_t *self,
       shift_sei_buffer_at_index(self, self->sei_data_buffer_idx - 1);
     }
   SV_CATCH()
+  {
+    free(sign_data.signature);
+    free(pem_public_key.key);
+  }
   SV_DONE(status)
 
   // Free the EVP_PKEY since it is no longer needed. It is handled by the signing plugin.
-  openssl_free_key(self->sign_data->key);
-  self->sign_data->key = NULL;
+  openssl_free_key(sign_data.key);
 
   return status;
 }
-- 
2.43.0


From 41b6be38f8ccd4fdaace1f46a39ecc8c50973e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:28 +0000
Subject: [PATCH 65/72] fix: do not crash if the first NALU in the legacy
 format is missing

---
 lib/src/legacy/legacy_h26x_auth.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 5b9b354..289c23b 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -764,7 +764,8 @@ legacy_prepare_for_validation(legacy_sv_t *self)
 #endif
 
     // If we have received a SEI there is a signature to use for verification.
-    if (self->gop_state.has_sei || self->nalu_list->first_item->nalu->is_golden_sei) {
+    const legacy_h26x_nalu_t *first_nalu = self->nalu_list->first_item->nalu;
+    if (self->gop_state.has_sei || (first_nalu && first_nalu->is_golden_sei)) {
 #ifdef SIGNED_VIDEO_DEBUG
       printf("Hash to verify against signature:\n");
       for (size_t i = 0; i < verify_data->hash_size; i++) {
-- 
2.43.0


From 65c95460aced9e47f837daf5ee9f9710bdd0fa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:20 +0000
Subject: [PATCH 66/72] fix: complete the GOP hash when the stream ends

The final SEI, generated when the user tells that the stream has ended, had the GOP hash of the
previous GOP. An untouched stream signed on GOP level was therefore not authentic in the end.
---
 lib/src/signed_video_h26x_sign.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 478cd58..783198f 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -752,6 +752,10 @@ signed_video_set_end_of_stream(signed_video_t *self)
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     SV_THROW(prepare_for_nalus_to_prepend(self));
+    // If there are hashes added to the hash list, the |computed_gop_hash| can be finalized.
+    if (self->gop_info->list_idx != 0) {
+      SV_THROW(openssl_finalize_hash(self->crypto_handle, self->gop_info->computed_gop_hash, true));
+    }
     SV_THROW(generate_sei_nalu(self, &payload, &payload_signature_ptr));
     add_payload_to_buffer(self, payload, payload_signature_ptr);
     // Fetch the signature. If it is not ready we exit without generating the SEI.
-- 
2.43.0


From 023eb224c4a36859708da77b848696330237ab99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:17 +0000
Subject: [PATCH 67/72] fix: one SEI per GOP also when the stream has ended

If the end of the stream was told twice, or more NALUs followed, SEIs for empty GOPs were generated,
which made an untouched stream not authentic. Also, refuse to end the stream if there is no room for
the SEI, rather than dropping it, and start a new GOP if signing fails.
---
 lib/src/signed_video_h26x_sign.c | 63 ++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 27 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 783198f..1a473fd 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -459,6 +459,33 @@ prepare_for_nalus_to_prepend(signed_video_t *self)
   return status;
 }
 
+/* Generates a SEI for the ongoing GOP and prepares for a new one. If this fails, the video will have
+ * an unsigned GOP. */
+static svrc_t
+end_gop(signed_video_t *self)
+{
+  gop_info_t *gop_info = self->gop_info;
+  uint8_t *payload = NULL;
+  uint8_t *payload_signature_ptr = NULL;
+
+  // If there are hashes added to the hash list, the |computed_gop_hash| can be finalized.
+  svrc_t status = openssl_finalize_hash(self->crypto_handle, gop_info->computed_gop_hash, true);
+  if (status == SV_OK) status = generate_sei_nalu(self, &payload, &payload_signature_ptr);
+  if (status == SV_OK) {
+    // Add |payload| to buffer. Will be picked up again when the signature has been generated.
+    add_payload_to_buffer(self, payload, payload_signature_ptr);
+  } else {
+    gop_info->num_nalus_in_gop_hash = 0;
+    gop_info->list_idx = 0;
+    gop_info->has_reference_hash = false;
+    gop_info->has_timestamp = false;
+    // Do not confuse this with a NALU that was refused.
+    if (status == SV_NOT_SUPPORTED) status = SV_EXTERNAL_ERROR;
+  }
+
+  return status;
+}
+
 /**
  * @brief Public signed_video_sign.h APIs
  */
@@ -550,25 +577,7 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
           self->gop_info->has_timestamp = true;
         }
 
-        uint8_t *payload = NULL;
-        uint8_t *payload_signature_ptr = NULL;
-
-        // If there are hashes added to the hash list, the |computed_gop_hash| can be finalized.
-        SV_THROW(openssl_finalize_hash(self->crypto_handle, gop_info->computed_gop_hash, true));
-        sei_status = generate_sei_nalu(self, &payload, &payload_signature_ptr);
-        if (sei_status == SV_OK) {
-          // Add |payload| to buffer. Will be picked up again when the signature has been generated.
-          add_payload_to_buffer(self, payload, payload_signature_ptr);
-        } else {
-          // The video will have an unsigned GOP. Start a new GOP with this NALU and report the error
-          // when it has been added.
-          gop_info->num_nalus_in_gop_hash = 0;
-          gop_info->list_idx = 0;
-          gop_info->has_reference_hash = false;
-          gop_info->has_timestamp = false;
-          // Do not confuse this with a NALU that was refused.
-          if (sei_status == SV_NOT_SUPPORTED) sei_status = SV_EXTERNAL_ERROR;
-        }
+        sei_status = end_gop(self);
         // The previous GOP is now completed. The gop_hash was reset right after signing and
         // adding it to the SEI.
       }
@@ -747,19 +756,19 @@ signed_video_set_end_of_stream(signed_video_t *self)
 {
   if (!self) return SV_INVALID_PARAMETER;
 
-  uint8_t *payload = NULL;
-  uint8_t *payload_signature_ptr = NULL;
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     SV_THROW(prepare_for_nalus_to_prepend(self));
-    // If there are hashes added to the hash list, the |computed_gop_hash| can be finalized.
+    SV_THROW_IF_WITH_MSG(self->sei_data_buffer_idx >= MAX_SEI_DATA_BUFFER, SV_NOT_SUPPORTED,
+        "There is no room for another SEI.");
+    // The final SEI is only needed if something has been added since the previous one.
     if (self->gop_info->list_idx != 0) {
-      SV_THROW(openssl_finalize_hash(self->crypto_handle, self->gop_info->computed_gop_hash, true));
+      // If more NALUs follow, they start a new GOP.
+      self->sei_generation_enabled = false;
+      SV_THROW(end_gop(self));
+      // Fetch the signature. If it is not ready we exit without generating the SEI.
+      SV_THROW(get_signature_complete_sei_and_add_to_prepend(self));
     }
-    SV_THROW(generate_sei_nalu(self, &payload, &payload_signature_ptr));
-    add_payload_to_buffer(self, payload, payload_signature_ptr);
-    // Fetch the signature. If it is not ready we exit without generating the SEI.
-    SV_THROW(get_signature_complete_sei_and_add_to_prepend(self));
 
   SV_CATCH()
   SV_DONE(status)
-- 
2.43.0


From 0bc28bcf53a4c0db89ed4bc5c02203b00eec0b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:17 +0000
Subject: [PATCH 68/72] fix: sign the NALUs added before the first I frame as a
 GOP of their own

If the first NALUs of a stream to sign were not those of an I frame, their hashes were included in
the SEI of the first complete GOP. An untouched stream was therefore not authentic.
---
 lib/src/signed_video_h26x_common.c | 1 +
 lib/src/signed_video_h26x_sign.c   | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index f25bfdd..c70c0a4 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -258,6 +258,7 @@ gop_info_reset(gop_info_t *gop_info)
   // If a reset is forced, the stored hashes in |hash_list| have no meaning anymore.
   gop_info->list_idx = 0;
   gop_info->has_reference_hash = false;
+  memset(gop_info->hash_buddies, 0, sizeof(gop_info->hash_buddies));
   gop_info->global_gop_counter_is_synced = false;
 }
 
diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 1a473fd..ebe0d2b 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -553,7 +553,8 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
 
     // Refuse the NALU, before anything is changed, if it ends a GOP and there is no room for its SEI.
     // The user is supposed to fetch the SEIs and add the NALU (part) again.
-    if (nalu.is_first_nalu_in_gop && nalu.is_last_nalu_part && self->sei_generation_enabled &&
+    if (nalu.is_first_nalu_in_gop && nalu.is_last_nalu_part &&
+        (self->sei_generation_enabled || gop_info->list_idx != 0) &&
         self->sei_data_buffer_idx >= MAX_SEI_DATA_BUFFER) {
       self->last_nalu->is_last_nalu_part = nalu.is_first_nalu_part;
       SV_THROW_WITH_MSG(SV_NOT_SUPPORTED, "There is no room for another SEI.");
@@ -571,7 +572,8 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
 
     // Finalize GOP hash and generate SEI if the NALU is I frame of a non-empty GOP.
     if (nalu.is_first_nalu_in_gop && nalu.is_last_nalu_part) {
-      if (self->sei_generation_enabled) {
+      // NALUs added before the first I frame form a GOP of their own.
+      if (self->sei_generation_enabled || gop_info->list_idx != 0) {
         if (timestamp) {
           self->gop_info->timestamp = *timestamp;
           self->gop_info->has_timestamp = true;
-- 
2.43.0


From c254f41c612a0f56c7affae5369d6c78f8340bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:24 +0000
Subject: [PATCH 69/72] fix: hash NALU parts alike wherever the zeros ending
 the NALU are cut

---
 lib/src/signed_video_h26x_common.c | 24 ++++++++++++++++++++++--
 lib/src/signed_video_internal.h    |  1 +
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index c70c0a4..949db32 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -933,7 +933,9 @@ get_hash_wrapper(signed_video_t *self, const h26x_nalu_t *nalu)
 
 /* update_hash()
  *
- * takes the |hashable_data| from the NALU, and updates the hash in |crypto_handle|. */
+ * takes the |hashable_data| from the NALU, and updates the hash in |crypto_handle|. Trailing zeros of
+ * a NALU are not hashed. Since it is not known if a NALU goes on with more than zeros, the ones ending
+ * a part are held until there is something else to hash. */
 static svrc_t
 update_hash(signed_video_t *self,
     const h26x_nalu_t *nalu,
@@ -943,8 +945,25 @@ update_hash(signed_video_t *self,
   assert(nalu);
   const uint8_t *hashable_data = nalu->hashable_data;
   size_t hashable_data_size = nalu->hashable_data_size;
+  const size_t total_size = hashable_data_size;
+  const uint8_t zero = 0x00;
 
-  return openssl_update_hash(self->crypto_handle, hashable_data, hashable_data_size, false);
+  while (hashable_data_size > 0 && hashable_data[hashable_data_size - 1] == 0x00) {
+    hashable_data_size--;
+  }
+  const size_t num_trailing_zeros = total_size - hashable_data_size;
+  svrc_t status = SV_OK;
+  if (hashable_data_size > 0) {
+    for (; status == SV_OK && self->num_held_zeros > 0; self->num_held_zeros--) {
+      status = openssl_update_hash(self->crypto_handle, &zero, 1, false);
+    }
+    if (status == SV_OK) {
+      status = openssl_update_hash(self->crypto_handle, hashable_data, hashable_data_size, false);
+    }
+  }
+  self->num_held_zeros += num_trailing_zeros;
+
+  return status;
 }
 
 /* simply_hash()
@@ -1056,6 +1075,7 @@ hash_and_add(signed_video_t *self, const h26x_nalu_t *nalu)
       // If this is the first part of a non-complete NALU, initialize the |crypto_handle| to enable
       // sequentially updating the hash with more parts.
       SV_THROW(openssl_init_hash(self->crypto_handle, false));
+      self->num_held_zeros = 0;
     }
     // Select hash function, hash the NALU and store as 'latest hash'
     hash_wrapper_t hash_wrapper = get_hash_wrapper(self, nalu);
diff --git a/lib/src/signed_video_internal.h b/lib/src/signed_video_internal.h
index 6531f19..966be82 100644
--- a/lib/src/signed_video_internal.h
+++ b/lib/src/signed_video_internal.h
@@ -172,6 +172,7 @@ struct _signed_video_t {
   h26x_nalu_t *last_nalu;  // Track last parsed h26x_nalu_t to pass on to next part
 
   uint8_t received_linked_hash[MAX_HASH_SIZE];  // Stores linked hash data for liked hash method.
+  size_t num_held_zeros;  // Zeros ending the latest NALU part, not yet known to be part of the hash
   // Members associated with SEI writing
   uint16_t last_two_bytes;
   sei_data_t sei_data_buffer[MAX_SEI_DATA_BUFFER];
-- 
2.43.0


From 1c772a2495428a3784ec04836dec4071ce851e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:32 +0000
Subject: [PATCH 70/72] fix: report lack of memory when a private key cannot be
 written

---
 lib/src/signed_video_openssl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index d0bda9d..28bc6c4 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -734,6 +734,7 @@ signed_video_generate_ecdsa_private_key(const char *dir_to_key,
   char *full_path_to_private_key = NULL;
   if (dir_to_key) {
     full_path_to_private_key = get_path_to_key(dir_to_key, PRIVATE_ECDSA_KEY_FILE);
+    if (!full_path_to_private_key) return SV_MEMORY;
   }
 
   svrc_t status = create_ecdsa_private_key(full_path_to_private_key, &pem_key);
@@ -760,6 +761,7 @@ signed_video_generate_rsa_private_key(const char *dir_to_key,
   char *full_path_to_private_key = NULL;
   if (dir_to_key) {
     full_path_to_private_key = get_path_to_key(dir_to_key, PRIVATE_RSA_KEY_FILE);
+    if (!full_path_to_private_key) return SV_MEMORY;
   }
 
   svrc_t status = create_rsa_private_key(full_path_to_private_key, &pem_key);
-- 
2.43.0


From ecf25da9005b4d4cd4c2b1767ea7cb664ac84f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:51 +0000
Subject: [PATCH 71/72] fix: handle lack of memory when an attested public key
 is verified

---
 lib/vendors/axis-communications/sv_vendor_axis_communications.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 00fdbe7..986b07e 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -411,6 +411,7 @@ verify_axis_communications_public_key(sv_vendor_axis_communications_t *self)
 
     // Create and fill in |signed_data|.
     signed_data = calloc(1, SIGNED_DATA_SIZE);
+    SV_THROW_IF(!signed_data, SV_MEMORY);
     uint8_t *sd_ptr = signed_data;
 
     // Add hash of |binary_raw_data|.
-- 
2.43.0


From b26a2080a38bf9b3a6f299915a4f9fb00f0db034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:01 +0000
Subject: [PATCH 72/72] fix: accumulate the result of GOPs validated before a
 failure

---
 lib/src/signed_video_h26x_auth.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index ce82500..c85b263 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1228,7 +1228,11 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
     if (status != SV_OK) nalu_list->last_item->validation_status = 'E';
   }
   if (status != SV_OK) {
-    // Nothing is reported upon failure.
+    // Nothing is reported upon failure, but GOPs validated before it happened should be accumulated.
+    if (self->validation_flags.has_auth_result) {
+      update_authenticity_report(self);
+      self->latest_validation->has_timestamp = false;
+    }
     self->validation_flags.has_auth_result = false;
   }
 
-- 
2.43.0

