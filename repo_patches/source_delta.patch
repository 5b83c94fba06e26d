From 0aacdfb629de0cf3af947121a32784c94a9262af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 01/25] fix: advance the buffer after a short read of
 /dev/urandom

---
 src/random.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/random.c b/src/random.c
index f763266..3be86af 100644
--- a/src/random.c
+++ b/src/random.c
@@ -61,6 +61,7 @@ void fingera_os_rand_bytes(void *buf, size_t buf_size) {
     if (r <= 0) {
       FINGERA_FATAL("read /dev/urandom %d", r);
     }
+    buf = (char *)buf + r;
     buf_size -= (size_t)r;
   }
   close(fd);
-- 
2.43.0


From aa0c885b4a75502d311ffa25e932a0d62751526e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 02/25] fix: do not look for base32 padding past the end of the
 input

---
 src/base32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base32.c b/src/base32.c
index 36d3e7f..524d74d 100644
--- a/src/base32.c
+++ b/src/base32.c
@@ -185,7 +185,7 @@ size_t fingera_to_base32_raw(const void *buf, size_t buf_size, void *out) {
 }
 
 static inline size_t base32_strlen(const char *str, size_t str_len) {
-  const char *str_end = strchr(str, '=');
+  const char *str_end = (const char *)memchr(str, '=', str_len);
   if (!str_end) return str_len;
   return str_end - str;
 }
-- 
2.43.0


From e851633ed8421403abde3fa30ff0e6f823bff6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 03/25] fix: index the base32 decode table with an unsigned
 byte

---
 src/base32.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/base32.c b/src/base32.c
index 524d74d..b6e26b0 100644
--- a/src/base32.c
+++ b/src/base32.c
@@ -210,14 +210,14 @@ static size_t _fingera_from_base32(const char *str, size_t str_len, void *buf,
   uint8_t *out = (uint8_t *)buf;
   const uint8_t *decode_string = is_raw ? BASE32_DECODE_RAW : BASE32_DECODE;
   for (size_t i = 0; i < blocks; i++) {
-    uint8_t byte1 = decode_string[str[i * 8 + 0]];
-    uint8_t byte2 = decode_string[str[i * 8 + 1]];
-    uint8_t byte3 = decode_string[str[i * 8 + 2]];
-    uint8_t byte4 = decode_string[str[i * 8 + 3]];
-    uint8_t byte5 = decode_string[str[i * 8 + 4]];
-    uint8_t byte6 = decode_string[str[i * 8 + 5]];
-    uint8_t byte7 = decode_string[str[i * 8 + 6]];
-    uint8_t byte8 = decode_string[str[i * 8 + 7]];
+    uint8_t byte1 = decode_string[(uint8_t)str[i * 8 + 0]];
+    uint8_t byte2 = decode_string[(uint8_t)str[i * 8 + 1]];
+    uint8_t byte3 = decode_string[(uint8_t)str[i * 8 + 2]];
+    uint8_t byte4 = decode_string[(uint8_t)str[i * 8 + 3]];
+    uint8_t byte5 = decode_string[(uint8_t)str[i * 8 + 4]];
+    uint8_t byte6 = decode_string[(uint8_t)str[i * 8 + 5]];
+    uint8_t byte7 = decode_string[(uint8_t)str[i * 8 + 6]];
+    uint8_t byte8 = decode_string[(uint8_t)str[i * 8 + 7]];
     if (byte1 == 0xFF || byte2 == 0xFF || byte3 == 0xFF || byte4 == 0xFF ||
         byte5 == 0xFF || byte6 == 0xFF || byte7 == 0xFF || byte8 == 0xFF)
       return out - (uint8_t *)buf;
@@ -232,19 +232,19 @@ static size_t _fingera_from_base32(const char *str, size_t str_len, void *buf,
   }
   uint8_t tail_bytes = TAIL_TO_BYTES[tail];
   if (tail_bytes > 0) {
-    uint8_t byte1 = decode_string[tail_str[0]];
-    uint8_t byte2 = decode_string[tail_str[1]];
+    uint8_t byte1 = decode_string[(uint8_t)tail_str[0]];
+    uint8_t byte2 = decode_string[(uint8_t)tail_str[1]];
     *out++ = (byte1 << 3) | (byte2 >> 2);
     if (tail_bytes > 1) {
-      uint8_t byte3 = decode_string[tail_str[2]];
-      uint8_t byte4 = decode_string[tail_str[3]];
+      uint8_t byte3 = decode_string[(uint8_t)tail_str[2]];
+      uint8_t byte4 = decode_string[(uint8_t)tail_str[3]];
       *out++ = (byte2 << 6) | (byte3 << 1) | (byte4 >> 4);
       if (tail_bytes > 2) {
-        uint8_t byte5 = decode_string[tail_str[4]];
+        uint8_t byte5 = decode_string[(uint8_t)tail_str[4]];
         *out++ = (byte4 << 4) | (byte5 >> 1);
         if (tail_bytes > 3) {
-          uint8_t byte6 = decode_string[tail_str[5]];
-          uint8_t byte7 = decode_string[tail_str[6]];
+          uint8_t byte6 = decode_string[(uint8_t)tail_str[5]];
+          uint8_t byte7 = decode_string[(uint8_t)tail_str[6]];
           *out++ = (byte5 << 7) | (byte6 << 2) | (byte7 >> 3);
         }
       }
-- 
2.43.0


From dd22f5710e1b6e49454768d7073f84b55f4ec6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 04/25] fix: reject illegal symbols in the tail group of a
 base32 string

---
 src/base32.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/base32.c b/src/base32.c
index b6e26b0..01b04cd 100644
--- a/src/base32.c
+++ b/src/base32.c
@@ -234,17 +234,21 @@ static size_t _fingera_from_base32(const char *str, size_t str_len, void *buf,
   if (tail_bytes > 0) {
     uint8_t byte1 = decode_string[(uint8_t)tail_str[0]];
     uint8_t byte2 = decode_string[(uint8_t)tail_str[1]];
+    if (byte1 == 0xFF || byte2 == 0xFF) return out - (uint8_t *)buf;
     *out++ = (byte1 << 3) | (byte2 >> 2);
     if (tail_bytes > 1) {
       uint8_t byte3 = decode_string[(uint8_t)tail_str[2]];
       uint8_t byte4 = decode_string[(uint8_t)tail_str[3]];
+      if (byte3 == 0xFF || byte4 == 0xFF) return out - (uint8_t *)buf;
       *out++ = (byte2 << 6) | (byte3 << 1) | (byte4 >> 4);
       if (tail_bytes > 2) {
         uint8_t byte5 = decode_string[(uint8_t)tail_str[4]];
+        if (byte5 == 0xFF) return out - (uint8_t *)buf;
         *out++ = (byte4 << 4) | (byte5 >> 1);
         if (tail_bytes > 3) {
           uint8_t byte6 = decode_string[(uint8_t)tail_str[5]];
           uint8_t byte7 = decode_string[(uint8_t)tail_str[6]];
+          if (byte6 == 0xFF || byte7 == 0xFF) return out - (uint8_t *)buf;
           *out++ = (byte5 << 7) | (byte6 << 2) | (byte7 >> 3);
         }
       }
-- 
2.43.0


From c8144fa59c46db41071d0944d5f46fd38a12422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 05/25] fix: do not decode '=' in the body of a base64 string
 as 'A'

---
 src/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.c b/src/base64.c
index 25f9780..978e652 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -12,7 +12,7 @@ static const unsigned char BASE64_STANDARD_DECODE[256] = {
     0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x3E,
     0xFF, 0xFF, 0xFF, 0x3F,  // +/
     0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3A, 0x3B, 0x3C, 0x3D, 0xFF,
-    0xFF, 0xFF, 0x00, 0xFF, 0xFF,  // 0-9 =
+    0xFF, 0xFF, 0xFF, 0xFF, 0xFF,  // 0-9
     0xFF, 0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09,
     0x0A, 0x0B, 0x0C, 0x0D, 0x0E,  // A-O
     0x0F, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19,
-- 
2.43.0


From fb55cd2e761c210f0d6dc92ac56cd6b532fd1e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 06/25] fix: keep base58 decoding inside the str_len bytes it
 was given

---
 src/base58.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/base58.c b/src/base58.c
index f056964..c57e77e 100644
--- a/src/base58.c
+++ b/src/base58.c
@@ -73,21 +73,21 @@ size_t fingera_to_base58(const void *buf, size_t buf_size, char *str) {
 size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
   const char *str_end = str + str_len;
   // Skip leading spaces.
-  while (*str && isspace(*str)) {
+  while (str != str_end && isspace(*str)) {
     str++;
   }
   int zeroes = 0;
   int length = 0;
-  while (*str == '1') {
+  while (str != str_end && *str == '1') {
     zeroes++;
     str++;
   }
 
-  int size = (int)(str_end - str) * 733 / 1000 + 1;
+  int size = (int)((size_t)(str_end - str) * 733 / 1000) + 1;
   DECLARE_BUFFER(uint8_t, b256, size);
   memset(b256, 0, size);
 
-  while (*str && !isspace(*str)) {
+  while (str != str_end && *str && !isspace(*str)) {
     // Decode base58 character
     int carry = BASE58_DECODE[(uint8_t)*str];
     if (carry == -1) {
@@ -107,8 +107,8 @@ size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
     str++;
   }
   // Skip trailing spaces.
-  while (isspace(*str)) str++;
-  if (*str != 0) {
+  while (str != str_end && isspace(*str)) str++;
+  if (str != str_end && *str != 0) {
     fingera_cleanse(b256, size);
     FREE_BUFFER(b256);
     return 0;
-- 
2.43.0


From 48271adc582992f183f1200a7469ab5ea32955ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 07/25] fix: leave room for leading '1's in
 fingera_from_base58_length

---
 include/fingera_libc/base58.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fingera_libc/base58.h b/include/fingera_libc/base58.h
index df53f33..9eec99b 100644
--- a/include/fingera_libc/base58.h
+++ b/include/fingera_libc/base58.h
@@ -33,7 +33,7 @@ static inline size_t fingera_to_base58_length(size_t buf_size) {
  * @return size_t 最大长度
  */
 static inline size_t fingera_from_base58_length(size_t str_len) {
-  return str_len * 733 / 1000 + 2;
+  return str_len;  // '1' 解码后占一个完整字节
 }
 
 /**
-- 
2.43.0


From a6dd6be8269d60c802c9a543f8883b434da9a633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 08/25] fix: do not overflow the stack decoding a long secret
 key string

---
 src/btc/key.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/btc/key.c b/src/btc/key.c
index 8f764c4..0c7f802 100644
--- a/src/btc/key.c
+++ b/src/btc/key.c
@@ -4,8 +4,10 @@
 #include <fingera_libc/cleanse.h>
 #include <fingera_libc/endian.h>
 #include <fingera_libc/random.h>
+#include <fingera_libc/sl/buffer.h>
 #include <secp256k1.h>
 #include <stdint.h>
+#include <stdlib.h>
 #include <string.h>
 
 /** This function is taken from the libsecp256k1 distribution and implements
@@ -373,12 +375,9 @@ size_t fingera_btc_key_to_string(const void* key32, char* key_str,
   return fingera_to_base58_check(key32, 32, param->prefix_secret_key,
                                  param->prefix_secret_key_size, key_str);
 }
-int fingera_btc_key_from_string(const char* key_str, size_t str_len,
-                                void* key32, int* is_compressed,
-                                const chain_parameters* param) {
-  uint8_t buf[32 + 8];
-  assert(param->prefix_secret_key_size <= 8);
-  size_t size = fingera_from_base58_check(key_str, str_len, buf);
+
+static int key_from_payload(const uint8_t* buf, size_t size, void* key32,
+                            int* is_compressed, const chain_parameters* param) {
   if (size <= 32) return 0;
   size_t pre_size = size - 32;
   if (param->prefix_secret_key_size != pre_size) {
@@ -398,6 +397,18 @@ int fingera_btc_key_from_string(const char* key_str, size_t str_len,
   return 1;
 }
 
+int fingera_btc_key_from_string(const char* key_str, size_t str_len,
+                                void* key32, int* is_compressed,
+                                const chain_parameters* param) {
+  size_t buf_size = fingera_from_base58_check_length(str_len);
+  DECLARE_BUFFER(uint8_t, buf, buf_size);
+  size_t size = fingera_from_base58_check(key_str, str_len, buf);
+  int ret = key_from_payload(buf, size, key32, is_compressed, param);
+  fingera_cleanse(buf, buf_size);
+  FREE_BUFFER(buf);
+  return ret;
+}
+
 int fingera_btc_key_derive(const void* key32, const void* chain32,
                            void* out_key32, void* out_chain32, uint32_t child) {
   uint8_t out[64];
-- 
2.43.0


From 9a3fc898dfde40ac33cb154008487efa64d3d71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 09/25] fix: do not overflow the stack decoding a long extended
 key string

---
 src/btc/exkey.c | 44 +++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/btc/exkey.c b/src/btc/exkey.c
index 7e0475e..469568a 100644
--- a/src/btc/exkey.c
+++ b/src/btc/exkey.c
@@ -5,6 +5,7 @@
 #include <fingera_libc/endian.h>
 #include <fingera_libc/hash/sha2.h>
 #include <fingera_libc/sl/buffer.h>
+#include <stdlib.h>
 #include <string.h>
 
 void fingera_exkey_init(fingera_ex_key *key, const void *seed, size_t len) {
@@ -98,23 +99,29 @@ size_t fingera_exkey_to_string(const fingera_ex_key *key, char *str,
   return size;
 }
 
-int fingera_exkey_from_string(const char *str, size_t str_len,
+static int exkey_from_payload(const uint8_t *extkey, size_t size,
                               fingera_ex_key *key,
                               const chain_parameters *param) {
-  uint8_t extkey[BIP32_EXTKEY_SIZE + 8];
-  assert(param->prefix_ext_secret_key_size <= 8);
-  size_t size = fingera_from_base58_check(str, str_len, extkey);
-  assert(size <= sizeof(extkey));
-  if (size <= BIP32_EXTKEY_SIZE || size > sizeof(extkey))
-    return 0;  // no prefix or Overflow
+  if (size <= BIP32_EXTKEY_SIZE) return 0;  // no prefix
   size_t prefix_size = size - BIP32_EXTKEY_SIZE;
   if (prefix_size != param->prefix_ext_secret_key_size) return 0;
   if (memcmp(extkey, param->prefix_ext_secret_key, prefix_size) != 0) return 0;
   fingera_exkey_decode(extkey + prefix_size, key);
-  fingera_cleanse(extkey, sizeof(extkey));
   return 1;
 }
 
+int fingera_exkey_from_string(const char *str, size_t str_len,
+                              fingera_ex_key *key,
+                              const chain_parameters *param) {
+  size_t buf_size = fingera_from_base58_check_length(str_len);
+  DECLARE_BUFFER(uint8_t, extkey, buf_size);
+  size_t size = fingera_from_base58_check(str, str_len, extkey);
+  int ret = exkey_from_payload(extkey, size, key, param);
+  fingera_cleanse(extkey, buf_size);
+  FREE_BUFFER(extkey);
+  return ret;
+}
+
 void fingera_expubkey_encode(const fingera_ex_pubkey *pubkey, void *extkey74) {
   uint8_t *code = (uint8_t *)extkey74;
   write_key_extension(&pubkey->ext, extkey74);
@@ -136,18 +143,25 @@ size_t fingera_expubkey_to_string(const fingera_ex_pubkey *pubkey, char *str,
                                         param->prefix_ext_public_key_size, str);
   return size;
 }
-int fingera_expubkey_from_string(const char *str, size_t str_len,
+
+static int expubkey_from_payload(const uint8_t *extkey, size_t size,
                                  fingera_ex_pubkey *pub,
                                  const chain_parameters *param) {
-  uint8_t extkey[BIP32_EXTKEY_SIZE + 8];
-  assert(param->prefix_ext_public_key_size <= 8);
-  size_t size = fingera_from_base58_check(str, str_len, extkey);
-  assert(size <= sizeof(extkey));
-  if (size <= BIP32_EXTKEY_SIZE || size > sizeof(extkey))
-    return 0;  // no prefix or Overflow
+  if (size <= BIP32_EXTKEY_SIZE) return 0;  // no prefix
   size_t prefix_size = size - BIP32_EXTKEY_SIZE;
   if (prefix_size != param->prefix_ext_public_key_size) return 0;
   if (memcmp(extkey, param->prefix_ext_public_key, prefix_size) != 0) return 0;
   fingera_expubkey_decode(extkey + prefix_size, pub);
   return 1;
+}
+
+int fingera_expubkey_from_string(const char *str, size_t str_len,
+                                 fingera_ex_pubkey *pub,
+                                 const chain_parameters *param) {
+  size_t buf_size = fingera_from_base58_check_length(str_len);
+  DECLARE_BUFFER(uint8_t, extkey, buf_size);
+  size_t size = fingera_from_base58_check(str, str_len, extkey);
+  int ret = expubkey_from_payload(extkey, size, pub, param);
+  FREE_BUFFER(extkey);
+  return ret;
 }
\ No newline at end of file
-- 
2.43.0


From a56bbd36ed6d0005a4389ad368790023252150c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 10/25] fix: encode and decode INT64_MIN as a zigzag value of
 its own

---
 src/compress_integer.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/compress_integer.c b/src/compress_integer.c
index 067d696..d239aee 100644
--- a/src/compress_integer.c
+++ b/src/compress_integer.c
@@ -38,8 +38,10 @@ size_t fingera_decode_varint(const void *buf, size_t size, uint64_t *out) {
 }
 
 size_t fingera_encode_zigzag(int64_t value, void *buf) {
-  uint64_t uvalue = (uint64_t)llabs(value);
+  uint64_t uvalue = (uint64_t)value;
   uint64_t sign = value < 0 ? 1 : 0;
+  if (sign) uvalue = 0 - uvalue;
+  // INT64_MIN 的绝对值左移后只剩下符号位，即编码为 1 ("负0")
   uvalue <<= 1;
   uvalue |= sign;
   return fingera_encode_varint(uvalue, buf);
@@ -52,7 +54,9 @@ size_t fingera_decode_zigzag(const void *buf, size_t size, int64_t *out) {
   if (len > 0) {
     sign = uvalue & 1;
     uvalue >>= 1;
-    if (sign) {
+    if (sign && uvalue == 0) {
+      *out = INT64_MIN;
+    } else if (sign) {
       *out = -(int64_t)uvalue;
     } else {
       *out = (int64_t)uvalue;
-- 
2.43.0


From 7ee01fa4436d920271a4b317bc681a8a4284b45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 11/25] fix: reject a varint that does not fit in 64 bits

---
 src/compress_integer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compress_integer.c b/src/compress_integer.c
index d239aee..74af496 100644
--- a/src/compress_integer.c
+++ b/src/compress_integer.c
@@ -27,8 +27,10 @@ size_t fingera_decode_varint(const void *buf, size_t size, uint64_t *out) {
   if (size > 10) size = 10;
   for (size_t i = 0; i < size; i++) {
     uint8_t byte = *in++;
+    if (*out > (UINT64_MAX >> 7)) return 0;  // 超出64位
     *out = (*out << 7) | (byte & 0x7F);
     if (byte & 0x80) {
+      if (*out == UINT64_MAX) return 0;  // 超出64位
       (*out)++;
     } else {
       return in - (uint8_t *)buf;
-- 
2.43.0


From 2024e1d6974bc45b8badd1ab6c4a0dee6667f322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 12/25] fix: look for the bech32 separator only inside the
 given string

---
 src/btc/bech32.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/btc/bech32.c b/src/btc/bech32.c
index 27272c0..ecc4131 100644
--- a/src/btc/bech32.c
+++ b/src/btc/bech32.c
@@ -112,7 +112,10 @@ int fingera_bech32_decode(const char *str, size_t str_len, char *hrp,
                           size_t *hrp_size, void *b32) {
   if (is_illegal(str, str_len)) return -1;
 
-  const char *pos = strrchr(str, '1');
+  const char *pos = NULL;
+  for (size_t i = 0; i < str_len; i++) {
+    if (str[i] == '1') pos = str + i;
+  }
   if (!pos || str_len > 90 || pos == str || pos + 7 > str + str_len ||
       str_len <= 7) {
     return -2;
-- 
2.43.0


From 0b6647914d0d216bf42c8aa712df9c54497c56de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 13/25] fix: reject a segwit address with bad padding (BIP173)

---
 src/btc/address.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/btc/address.c b/src/btc/address.c
index 9cc02dc..3761c7d 100644
--- a/src/btc/address.c
+++ b/src/btc/address.c
@@ -108,6 +108,13 @@ static fingera_btc_address decode_bech32(const char *str, size_t str_len,
     return BTC_BAD_ADDRESS;
   }
 
+  // BIP173: 8位对齐后剩余的填充不超过4位且必须全为0
+  size_t pad = (size_t)(bech32_size - 1) * 5 % 8;
+  if (pad > 4 || (buffer[bech32_size - 1] & ((1 << pad) - 1)) != 0) {
+    FREE_BUFFER(buffer);
+    return BTC_BAD_ADDRESS;
+  }
+
   if (*out_size >= fingera_from_base32_raw_length(bech32_size - 1)) {
     int version = buffer[0];
     if (version == 0) {
-- 
2.43.0


From 225a4d29d34c3d689470354600559565c6f73736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 14/25] fix: refuse a hardened child or a bad prefix byte in
 pubkey_derive instead of asserting

---
 src/btc/key.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/btc/key.c b/src/btc/key.c
index 0c7f802..bc87a72 100644
--- a/src/btc/key.c
+++ b/src/btc/key.c
@@ -474,9 +474,8 @@ void fingera_btc_key_get_pub(const void* key32, void* pubkey64) {
 int fingera_btc_pubkey_derive(const void* encoded_pubkey33, const void* chain32,
                               void* out_pubkey33, void* out_chain32,
                               uint32_t child) {
-  assert((child >> 31) == 0);
+  if ((child >> 31) != 0) return 0;  // 公钥不能做强化派生
   const uint8_t* pubkey33 = (const uint8_t*)encoded_pubkey33;
-  assert(pubkey33[0] == 2 || pubkey33[0] == 3);
   uint8_t out[64];
   secp256k1_pubkey pubkey;
   if (!fingera_btc_pubkey_decode(encoded_pubkey33, 33, &pubkey)) return 0;
-- 
2.43.0


From f04409aec262f95c3384ba2c054cec0e8c03c6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 15/25] fix: refuse to derive below depth 255 instead of
 wrapping to 0

---
 src/btc/exkey.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/btc/exkey.c b/src/btc/exkey.c
index 469568a..13fac54 100644
--- a/src/btc/exkey.c
+++ b/src/btc/exkey.c
@@ -24,6 +24,7 @@ void fingera_exkey_init(fingera_ex_key *key, const void *seed, size_t len) {
 
 int fingera_exkey_derive(const fingera_ex_key *key, fingera_ex_key *derived,
                          uint32_t child, uint32_t fingerprint) {
+  if (key->ext.depth == 255) return 0;  // 深度只有8位
   int r = fingera_btc_key_derive(key->key, key->ext.chain_code, derived->key,
                                  derived->ext.chain_code, child);
   if (r) {
@@ -37,6 +38,7 @@ int fingera_exkey_derive(const fingera_ex_key *key, fingera_ex_key *derived,
 int fingera_expubkey_derive(const fingera_ex_pubkey *pubkey,
                             fingera_ex_pubkey *derived, uint32_t child,
                             uint32_t fingerprint) {
+  if (pubkey->ext.depth == 255) return 0;  // 深度只有8位
   if (!fingera_btc_pubkey_derive(pubkey->c_pubkey, pubkey->ext.chain_code,
                                  derived->c_pubkey, derived->ext.chain_code,
                                  child))
-- 
2.43.0


From 02ccc39671ae46b2fca7e8b8a2b6d2b3b56eed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 16/25] fix: reject an extended secret key whose padding byte
 is not 0

---
 src/btc/exkey.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/btc/exkey.c b/src/btc/exkey.c
index 13fac54..d06cbc8 100644
--- a/src/btc/exkey.c
+++ b/src/btc/exkey.c
@@ -108,6 +108,7 @@ static int exkey_from_payload(const uint8_t *extkey, size_t size,
   size_t prefix_size = size - BIP32_EXTKEY_SIZE;
   if (prefix_size != param->prefix_ext_secret_key_size) return 0;
   if (memcmp(extkey, param->prefix_ext_secret_key, prefix_size) != 0) return 0;
+  if (extkey[prefix_size + 41] != 0) return 0;  // 私钥前必须补0
   fingera_exkey_decode(extkey + prefix_size, key);
   return 1;
 }
-- 
2.43.0


From 993f4cb216852bd0dc09c2b0e318fcb0d526eead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 17/25] fix: report an invalid key from key_encode instead of
 asserting

---
 src/btc/key.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/btc/key.c b/src/btc/key.c
index bc87a72..09e82eb 100644
--- a/src/btc/key.c
+++ b/src/btc/key.c
@@ -452,7 +452,6 @@ int fingera_btc_key_encode(const void* key32, void* encoded_key,
                                 ? SECP256K1_EC_COMPRESSED
                                 : SECP256K1_EC_UNCOMPRESSED);
   r = (encoded_len == encoded_key_len ? r : 0);
-  assert(encoded_len == encoded_key_len);
   return r;
 }
 
-- 
2.43.0


From 1e54b8be4f0f07eb7550493acb257bec02841ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 18/25] fix: wipe the key blocks of HMAC before returning

---
 src/hash/sha2.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hash/sha2.c b/src/hash/sha2.c
index f89c394..224a6bb 100644
--- a/src/hash/sha2.c
+++ b/src/hash/sha2.c
@@ -800,6 +800,9 @@ void fingera_hmac_sha256(const void *key, size_t key_len, const void *msg,
 
   fingera_cleanse(digest_outter, sizeof(digest_outter));
   fingera_cleanse(digest_inner, sizeof(digest_inner));
+  fingera_cleanse(buffer, sizeof(buffer));
+  fingera_cleanse(key_inner, sizeof(key_inner));
+  fingera_cleanse(key_outter, sizeof(key_outter));
 }
 
 void fingera_hmac_sha512(const void *key, size_t key_len, const void *msg,
@@ -846,4 +849,7 @@ void fingera_hmac_sha512(const void *key, size_t key_len, const void *msg,
   }
   fingera_cleanse(digest_outter, sizeof(digest_outter));
   fingera_cleanse(digest_inner, sizeof(digest_inner));
+  fingera_cleanse(buffer, sizeof(buffer));
+  fingera_cleanse(key_inner, sizeof(key_inner));
+  fingera_cleanse(key_outter, sizeof(key_outter));
 }
-- 
2.43.0


From a8f3c4a32a39463b56f44608287f268bdc28389f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 19/25] fix: do not take the raw base32 value 61 for padding

---
 src/base32.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/base32.c b/src/base32.c
index 01b04cd..a2a9d14 100644
--- a/src/base32.c
+++ b/src/base32.c
@@ -203,7 +203,8 @@ size_t fingera_from_base32_raw_length(size_t new_len) {
 
 static size_t _fingera_from_base32(const char *str, size_t str_len, void *buf,
                                    int is_raw) {
-  size_t new_len = base32_strlen(str, str_len);
+  // raw 编码没有 padding，'='(61) 只是一个非法值
+  size_t new_len = is_raw ? str_len : base32_strlen(str, str_len);
   size_t tail = new_len % 8;
   size_t blocks = new_len / 8;
   const char *tail_str = str + blocks * 8;
-- 
2.43.0


From 75c22f8f2392f5c561a65730ce795a54b396f586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:24 +0000
Subject: [PATCH 20/25] fix: do not count base58 lengths beyond 2 GiB in an int

---
 src/base58.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/base58.c b/src/base58.c
index c57e77e..a09ab5e 100644
--- a/src/base58.c
+++ b/src/base58.c
@@ -41,12 +41,12 @@ size_t fingera_to_base58(const void *buf, size_t buf_size, char *str) {
   memset(b58, 0, size);
 
   // Process the bytes.
-  int length = 0;
+  size_t length = 0;
   while (begin != end) {
     int carry = *begin;
-    int i = 0;
-    for (int it = (int)size - 1; (carry != 0 || i < length) && it >= 0;
-         it--, i++) {
+    size_t i = 0;
+    for (size_t it = size; (carry != 0 || i < length) && it > 0; i++) {
+      it--;
       carry += 256 * b58[it];
       b58[it] = carry % 58;
       carry /= 58;
@@ -76,14 +76,14 @@ size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
   while (str != str_end && isspace(*str)) {
     str++;
   }
-  int zeroes = 0;
-  int length = 0;
+  size_t zeroes = 0;
+  size_t length = 0;
   while (str != str_end && *str == '1') {
     zeroes++;
     str++;
   }
 
-  int size = (int)((size_t)(str_end - str) * 733 / 1000) + 1;
+  size_t size = (size_t)(str_end - str) * 733 / 1000 + 1;
   DECLARE_BUFFER(uint8_t, b256, size);
   memset(b256, 0, size);
 
@@ -95,9 +95,9 @@ size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
       FREE_BUFFER(b256);
       return 0;
     }
-    int i = 0;
-    for (int it = size - 1; (carry != 0 || i < length) && (it >= 0);
-         --it, ++i) {
+    size_t i = 0;
+    for (size_t it = size; (carry != 0 || i < length) && it > 0; ++i) {
+      --it;
       carry += 58 * b256[it];
       b256[it] = carry % 256;
       carry /= 256;
-- 
2.43.0


From 7def5ffb7624dac1686a9437a9f1ad092da8565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:04 +0000
Subject: [PATCH 21/25] fix: wipe the inner digest of hash160 and hash256
 before returning

---
 src/btc/hash.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/btc/hash.c b/src/btc/hash.c
index 06108d7..34ad783 100644
--- a/src/btc/hash.c
+++ b/src/btc/hash.c
@@ -9,12 +9,14 @@ void fingera_btc_hash160(const void *msg, size_t msg_len, void *hash) {
   char sha2_digest[32];
   fingera_sha2_256(msg, msg_len, sha2_digest);
   fingera_ripemd160(sha2_digest, sizeof(sha2_digest), hash);
+  fingera_cleanse(sha2_digest, sizeof(sha2_digest));
 }
 
 void fingera_btc_hash256(const void *msg, size_t msg_len, void *hash) {
   char sha2_digest[32];
   fingera_sha2_256(msg, msg_len, sha2_digest);
   fingera_sha2_256(sha2_digest, sizeof(sha2_digest), hash);
+  fingera_cleanse(sha2_digest, sizeof(sha2_digest));
 }
 
 // 在 hash/sha2.c 中实现
-- 
2.43.0


From c89a2ec1630fe1b0fb7b6616dcb2c817c2cb7615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:54 +0000
Subject: [PATCH 22/25] fix: lower-case the Bech32 readable part without the
 locale's tolower

In a Turkish locale tolower('I') is not 'i': valid upper-case strings were refused.
---
 src/btc/bech32.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/btc/bech32.c b/src/btc/bech32.c
index ecc4131..bf9ccec 100644
--- a/src/btc/bech32.c
+++ b/src/btc/bech32.c
@@ -2,7 +2,6 @@
 #include <fingera_libc/hex.h>
 
 #include <assert.h>
-#include <ctype.h>
 #include <string.h>
 
 static const char *BECH32_ENCODE = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
@@ -123,7 +122,8 @@ int fingera_bech32_decode(const char *str, size_t str_len, char *hrp,
   if (*hrp_size < (size_t)(pos - str)) return -3;
   *hrp_size = pos - str;
   for (size_t i = 0; i < *hrp_size; i++) {
-    hrp[i] = isupper(str[i]) ? tolower(str[i]) : str[i];
+    // tolower 依赖 locale（土耳其语中 'I' 不会变为 'i'）
+    hrp[i] = (str[i] >= 'A' && str[i] <= 'Z') ? str[i] - 'A' + 'a' : str[i];
   }
   pos++;
   int8_t *out = (int8_t *)b32;
-- 
2.43.0


From 462576f313038a2a54e4886a4ff931cc63aa177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:54 +0000
Subject: [PATCH 23/25] fix: do not ask the locale which Base58 characters are
 white space

isspace was also given negative values for bytes above 0x7f.
---
 src/base58.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/base58.c b/src/base58.c
index a09ab5e..c550936 100644
--- a/src/base58.c
+++ b/src/base58.c
@@ -1,5 +1,4 @@
 #include <assert.h>
-#include <ctype.h>
 #include <fingera_libc/base58.h>
 #include <fingera_libc/cleanse.h>
 #include <fingera_libc/sl/buffer.h>
@@ -70,10 +69,13 @@ size_t fingera_to_base58(const void *buf, size_t buf_size, char *str) {
   return zeroes;
 }
 
+// isspace 依赖 locale，而且参数不能是负数
+static int is_space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
+
 size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
   const char *str_end = str + str_len;
   // Skip leading spaces.
-  while (str != str_end && isspace(*str)) {
+  while (str != str_end && is_space(*str)) {
     str++;
   }
   size_t zeroes = 0;
@@ -87,7 +89,7 @@ size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
   DECLARE_BUFFER(uint8_t, b256, size);
   memset(b256, 0, size);
 
-  while (str != str_end && *str && !isspace(*str)) {
+  while (str != str_end && *str && !is_space(*str)) {
     // Decode base58 character
     int carry = BASE58_DECODE[(uint8_t)*str];
     if (carry == -1) {
@@ -107,7 +109,7 @@ size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
     str++;
   }
   // Skip trailing spaces.
-  while (str != str_end && isspace(*str)) str++;
+  while (str != str_end && is_space(*str)) str++;
   if (str != str_end && *str != 0) {
     fingera_cleanse(b256, size);
     FREE_BUFFER(b256);
-- 
2.43.0


From 2d576255fb6dabdf5b679bb28d951cf8917855be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:35 +0000
Subject: [PATCH 24/25] fix: refuse short segwit addresses before str_len - 7
 wraps around

The scratch buffer of a string of fewer than seven characters was asked for with a size near SIZE_MAX.
---
 src/btc/address.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/btc/address.c b/src/btc/address.c
index 3761c7d..581d0e7 100644
--- a/src/btc/address.c
+++ b/src/btc/address.c
@@ -95,6 +95,8 @@ size_t fingera_to_address_witness_unknown(const void *version_and_program,
 static fingera_btc_address decode_bech32(const char *str, size_t str_len,
                                          void *out, size_t *out_size,
                                          const chain_parameters *param) {
+  // 更短的字符串不可能合法，且 str_len - 7 会溢出
+  if (str_len <= 7) return BTC_BAD_ADDRESS;
   DECLARE_BUFFER(char, buffer, str_len - 7);
 
   char bech32_hrp[16];
-- 
2.43.0


From 71cb975596e4b29bb736138d57f8f861b1be77a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:35 +0000
Subject: [PATCH 25/25] fix: stop with a message when scratch memory cannot be
 had

malloc's result was used unchecked: a failed request was written through a null pointer.
---
 include/fingera_libc/sl/buffer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fingera_libc/sl/buffer.h b/include/fingera_libc/sl/buffer.h
index 811b5b3..51dd552 100644
--- a/include/fingera_libc/sl/buffer.h
+++ b/include/fingera_libc/sl/buffer.h
@@ -8,6 +8,9 @@
 #ifndef _FINGERA_LIBC_SL_BUFFER_H_
 #define _FINGERA_LIBC_SL_BUFFER_H_
 
+#include <fingera_libc/error.h>
+#include <stdlib.h>
+
 #define DEFAULT_STACK_BUFFER 128
 
 #define DECLARE_BUFFER(type, name, real_size)      \
@@ -20,6 +23,7 @@
   } else {                                         \
     name = (type *)malloc(real_size);              \
     name##_in_heap = 1;                            \
+    if (name == NULL) FINGERA_FATAL("malloc");     \
   }
 
 #define FREE_BUFFER(name) \
-- 
2.43.0

