From 013496cb094c90b53f6947a64e078251a9129b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 01/20] fix: os_rand_bytes fills the whole buffer after short
 or interrupted reads

A short read left the tail of the caller's buffer unfilled (the next read
overwrote the beginning) and a read interrupted by a signal was fatal.
---
 src/random.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/random.c b/src/random.c
index f763266..16ae38e 100644
--- a/src/random.c
+++ b/src/random.c
@@ -49,6 +49,7 @@ void fingera_os_rand_bytes(void *buf, size_t buf_size) {
 #else
 
 /////////////////////////////Unix//////////////////////////////////////////////
+#include <errno.h>
 #include <fcntl.h>
 #include <unistd.h>
 void fingera_os_rand_bytes(void *buf, size_t buf_size) {
@@ -56,11 +57,16 @@ void fingera_os_rand_bytes(void *buf, size_t buf_size) {
   if (fd < 0) {
     FINGERA_FATAL("open /dev/urandom");
   }
+  char *out = (char *)buf;
   while (buf_size != 0) {
-    int r = read(fd, buf, buf_size);
+    ssize_t r = read(fd, out, buf_size);
+    if (r < 0 && errno == EINTR) {
+      continue;  // interrupted before anything was read
+    }
     if (r <= 0) {
-      FINGERA_FATAL("read /dev/urandom %d", r);
+      FINGERA_FATAL("read /dev/urandom %d", (int)r);
     }
+    out += r;
     buf_size -= (size_t)r;
   }
   close(fd);
-- 
2.43.0


From ca28154e07793c9d68a45f7ee39e1d096039269a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 02/20] fix: base32 decoding looks only at the given bytes

The end of the input was searched with strchr(), past the given length (in
raw mode even past a buffer that has no terminator at all), and bytes above
0x7F indexed the decode table with a negative subscript.
---
 src/base32.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/base32.c b/src/base32.c
index 36d3e7f..27c06ac 100644
--- a/src/base32.c
+++ b/src/base32.c
@@ -185,7 +185,7 @@ size_t fingera_to_base32_raw(const void *buf, size_t buf_size, void *out) {
 }
 
 static inline size_t base32_strlen(const char *str, size_t str_len) {
-  const char *str_end = strchr(str, '=');
+  const char *str_end = (const char *)memchr(str, '=', str_len);
   if (!str_end) return str_len;
   return str_end - str;
 }
@@ -203,21 +203,23 @@ size_t fingera_from_base32_raw_length(size_t new_len) {
 
 static size_t _fingera_from_base32(const char *str, size_t str_len, void *buf,
                                    int is_raw) {
-  size_t new_len = base32_strlen(str, str_len);
+  // raw symbols carry no padding
+  size_t new_len = is_raw ? str_len : base32_strlen(str, str_len);
   size_t tail = new_len % 8;
   size_t blocks = new_len / 8;
-  const char *tail_str = str + blocks * 8;
+  const uint8_t *in = (const uint8_t *)str;
+  const uint8_t *tail_str = in + blocks * 8;
   uint8_t *out = (uint8_t *)buf;
   const uint8_t *decode_string = is_raw ? BASE32_DECODE_RAW : BASE32_DECODE;
   for (size_t i = 0; i < blocks; i++) {
-    uint8_t byte1 = decode_string[str[i * 8 + 0]];
-    uint8_t byte2 = decode_string[str[i * 8 + 1]];
-    uint8_t byte3 = decode_string[str[i * 8 + 2]];
-    uint8_t byte4 = decode_string[str[i * 8 + 3]];
-    uint8_t byte5 = decode_string[str[i * 8 + 4]];
-    uint8_t byte6 = decode_string[str[i * 8 + 5]];
-    uint8_t byte7 = decode_string[str[i * 8 + 6]];
-    uint8_t byte8 = decode_string[str[i * 8 + 7]];
+    uint8_t byte1 = decode_string[in[i * 8 + 0]];
+    uint8_t byte2 = decode_string[in[i * 8 + 1]];
+    uint8_t byte3 = decode_string[in[i * 8 + 2]];
+    uint8_t byte4 = decode_string[in[i * 8 + 3]];
+    uint8_t byte5 = decode_string[in[i * 8 + 4]];
+    uint8_t byte6 = decode_string[in[i * 8 + 5]];
+    uint8_t byte7 = decode_string[in[i * 8 + 6]];
+    uint8_t byte8 = decode_string[in[i * 8 + 7]];
     if (byte1 == 0xFF || byte2 == 0xFF || byte3 == 0xFF || byte4 == 0xFF ||
         byte5 == 0xFF || byte6 == 0xFF || byte7 == 0xFF || byte8 == 0xFF)
       return out - (uint8_t *)buf;
-- 
2.43.0


From cada312b90500d5a95bea507bded6cf5fa0f3f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 03/20] fix: base32 decoding rejects illegal characters in the
 last block

---
 src/base32.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/base32.c b/src/base32.c
index 27c06ac..4cbd578 100644
--- a/src/base32.c
+++ b/src/base32.c
@@ -234,6 +234,9 @@ static size_t _fingera_from_base32(const char *str, size_t str_len, void *buf,
   }
   uint8_t tail_bytes = TAIL_TO_BYTES[tail];
   if (tail_bytes > 0) {
+    for (size_t i = 0; i < tail; i++) {
+      if (decode_string[tail_str[i]] == 0xFF) return out - (uint8_t *)buf;
+    }
     uint8_t byte1 = decode_string[tail_str[0]];
     uint8_t byte2 = decode_string[tail_str[1]];
     *out++ = (byte1 << 3) | (byte2 >> 2);
-- 
2.43.0


From f06944f5018776ea21920f25d00c02c5e256bb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 04/20] fix: base58 decoding stops at the given length

The decoder scanned to the terminating NUL and ignored the length it was
given, overflowing its work buffer when more characters followed; the int
size computation overflowed for inputs of a few megabytes.
---
 src/base58.c | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/base58.c b/src/base58.c
index f056964..73624d0 100644
--- a/src/base58.c
+++ b/src/base58.c
@@ -73,21 +73,21 @@ size_t fingera_to_base58(const void *buf, size_t buf_size, char *str) {
 size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
   const char *str_end = str + str_len;
   // Skip leading spaces.
-  while (*str && isspace(*str)) {
+  while (str != str_end && isspace((uint8_t)*str)) {
     str++;
   }
-  int zeroes = 0;
-  int length = 0;
-  while (*str == '1') {
+  size_t zeroes = 0;
+  size_t length = 0;
+  while (str != str_end && *str == '1') {
     zeroes++;
     str++;
   }
 
-  int size = (int)(str_end - str) * 733 / 1000 + 1;
+  size_t size = (size_t)(str_end - str) * 733 / 1000 + 1;
   DECLARE_BUFFER(uint8_t, b256, size);
   memset(b256, 0, size);
 
-  while (*str && !isspace(*str)) {
+  while (str != str_end && *str && !isspace((uint8_t)*str)) {
     // Decode base58 character
     int carry = BASE58_DECODE[(uint8_t)*str];
     if (carry == -1) {
@@ -95,11 +95,10 @@ size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
       FREE_BUFFER(b256);
       return 0;
     }
-    int i = 0;
-    for (int it = size - 1; (carry != 0 || i < length) && (it >= 0);
-         --it, ++i) {
-      carry += 58 * b256[it];
-      b256[it] = carry % 256;
+    size_t i = 0;
+    for (size_t it = size; (carry != 0 || i < length) && it > 0; --it, ++i) {
+      carry += 58 * b256[it - 1];
+      b256[it - 1] = carry % 256;
       carry /= 256;
     }
     assert(carry == 0);
@@ -107,8 +106,8 @@ size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
     str++;
   }
   // Skip trailing spaces.
-  while (isspace(*str)) str++;
-  if (*str != 0) {
+  while (str != str_end && isspace((uint8_t)*str)) str++;
+  if (str != str_end && *str != 0) {
     fingera_cleanse(b256, size);
     FREE_BUFFER(b256);
     return 0;
-- 
2.43.0


From 5fb594a135cf09dbda5a83d3d885e2ff53da31e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 05/20] fix: from_base58_length covers strings of leading '1's

Every leading '1' decodes to one byte, so 733/1000 of the length is too
small a buffer for them and decoding overflowed it.
---
 include/fingera_libc/base58.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fingera_libc/base58.h b/include/fingera_libc/base58.h
index df53f33..05912d2 100644
--- a/include/fingera_libc/base58.h
+++ b/include/fingera_libc/base58.h
@@ -33,7 +33,8 @@ static inline size_t fingera_to_base58_length(size_t buf_size) {
  * @return size_t 最大长度
  */
 static inline size_t fingera_from_base58_length(size_t str_len) {
-  return str_len * 733 / 1000 + 2;
+  // 每个前导'1'解码为一个字节，所以最坏情况下和编码等长
+  return str_len;
 }
 
 /**
-- 
2.43.0


From 83ff6c48e146a43d9bbd075bde0c6a50849dc699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 06/20] fix: bech32 decoding looks for the separator only in
 the given characters

strrchr() ran to the terminating NUL, so text behind the given length could
move the separator and unterminated input was read out of bounds.
---
 src/btc/bech32.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/btc/bech32.c b/src/btc/bech32.c
index 27272c0..b23472b 100644
--- a/src/btc/bech32.c
+++ b/src/btc/bech32.c
@@ -112,9 +112,11 @@ int fingera_bech32_decode(const char *str, size_t str_len, char *hrp,
                           size_t *hrp_size, void *b32) {
   if (is_illegal(str, str_len)) return -1;
 
-  const char *pos = strrchr(str, '1');
-  if (!pos || str_len > 90 || pos == str || pos + 7 > str + str_len ||
-      str_len <= 7) {
+  if (str_len > 90 || str_len <= 7) return -2;
+  // the separator is the last '1' of the given characters
+  const char *pos = str + str_len - 1;
+  while (pos != str && *pos != '1') pos--;
+  if (pos == str || pos + 7 > str + str_len) {
     return -2;
   }
   if (*hrp_size < (size_t)(pos - str)) return -3;
-- 
2.43.0


From 61ead0490bbc72d9a19d14ca1b91402d60b6f5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 07/20] fix: key and extended key strings of any length no
 longer overflow the stack

The decoders let base58 write into fixed buffers of 40 and 82 bytes whatever
the length of the string. The decoded bytes are now wiped on every path.
---
 src/btc/exkey.c | 40 +++++++++++++++++++++++++---------------
 src/btc/key.c   | 21 +++++++++++++++------
 2 files changed, 40 insertions(+), 21 deletions(-)

diff --git a/src/btc/exkey.c b/src/btc/exkey.c
index 7e0475e..6154e01 100644
--- a/src/btc/exkey.c
+++ b/src/btc/exkey.c
@@ -5,6 +5,7 @@
 #include <fingera_libc/endian.h>
 #include <fingera_libc/hash/sha2.h>
 #include <fingera_libc/sl/buffer.h>
+#include <stdlib.h>
 #include <string.h>
 
 void fingera_exkey_init(fingera_ex_key *key, const void *seed, size_t len) {
@@ -101,18 +102,22 @@ size_t fingera_exkey_to_string(const fingera_ex_key *key, char *str,
 int fingera_exkey_from_string(const char *str, size_t str_len,
                               fingera_ex_key *key,
                               const chain_parameters *param) {
-  uint8_t extkey[BIP32_EXTKEY_SIZE + 8];
+  int ret = 0;
+  size_t extkey_size = fingera_from_base58_check_length(str_len);
   assert(param->prefix_ext_secret_key_size <= 8);
+  DECLARE_BUFFER(uint8_t, extkey, extkey_size);
+  if (extkey == NULL) return 0;
   size_t size = fingera_from_base58_check(str, str_len, extkey);
-  assert(size <= sizeof(extkey));
-  if (size <= BIP32_EXTKEY_SIZE || size > sizeof(extkey))
-    return 0;  // no prefix or Overflow
+  if (size <= BIP32_EXTKEY_SIZE) goto end;  // no prefix
   size_t prefix_size = size - BIP32_EXTKEY_SIZE;
-  if (prefix_size != param->prefix_ext_secret_key_size) return 0;
-  if (memcmp(extkey, param->prefix_ext_secret_key, prefix_size) != 0) return 0;
+  if (prefix_size != param->prefix_ext_secret_key_size) goto end;
+  if (memcmp(extkey, param->prefix_ext_secret_key, prefix_size) != 0) goto end;
   fingera_exkey_decode(extkey + prefix_size, key);
-  fingera_cleanse(extkey, sizeof(extkey));
-  return 1;
+  ret = 1;
+end:
+  fingera_cleanse(extkey, extkey_size);
+  FREE_BUFFER(extkey);
+  return ret;
 }
 
 void fingera_expubkey_encode(const fingera_ex_pubkey *pubkey, void *extkey74) {
@@ -139,15 +144,20 @@ size_t fingera_expubkey_to_string(const fingera_ex_pubkey *pubkey, char *str,
 int fingera_expubkey_from_string(const char *str, size_t str_len,
                                  fingera_ex_pubkey *pub,
                                  const chain_parameters *param) {
-  uint8_t extkey[BIP32_EXTKEY_SIZE + 8];
+  int ret = 0;
+  size_t extkey_size = fingera_from_base58_check_length(str_len);
   assert(param->prefix_ext_public_key_size <= 8);
+  DECLARE_BUFFER(uint8_t, extkey, extkey_size);
+  if (extkey == NULL) return 0;
   size_t size = fingera_from_base58_check(str, str_len, extkey);
-  assert(size <= sizeof(extkey));
-  if (size <= BIP32_EXTKEY_SIZE || size > sizeof(extkey))
-    return 0;  // no prefix or Overflow
+  if (size <= BIP32_EXTKEY_SIZE) goto end;  // no prefix
   size_t prefix_size = size - BIP32_EXTKEY_SIZE;
-  if (prefix_size != param->prefix_ext_public_key_size) return 0;
-  if (memcmp(extkey, param->prefix_ext_public_key, prefix_size) != 0) return 0;
+  if (prefix_size != param->prefix_ext_public_key_size) goto end;
+  if (memcmp(extkey, param->prefix_ext_public_key, prefix_size) != 0) goto end;
   fingera_expubkey_decode(extkey + prefix_size, pub);
-  return 1;
+  ret = 1;
+end:
+  fingera_cleanse(extkey, extkey_size);
+  FREE_BUFFER(extkey);
+  return ret;
 }
\ No newline at end of file
diff --git a/src/btc/key.c b/src/btc/key.c
index 8f764c4..f9f8ade 100644
--- a/src/btc/key.c
+++ b/src/btc/key.c
@@ -4,8 +4,10 @@
 #include <fingera_libc/cleanse.h>
 #include <fingera_libc/endian.h>
 #include <fingera_libc/random.h>
+#include <fingera_libc/sl/buffer.h>
 #include <secp256k1.h>
 #include <stdint.h>
+#include <stdlib.h>
 #include <string.h>
 
 /** This function is taken from the libsecp256k1 distribution and implements
@@ -376,26 +378,33 @@ size_t fingera_btc_key_to_string(const void* key32, char* key_str,
 int fingera_btc_key_from_string(const char* key_str, size_t str_len,
                                 void* key32, int* is_compressed,
                                 const chain_parameters* param) {
-  uint8_t buf[32 + 8];
+  int ret = 0;
+  size_t buf_size = fingera_from_base58_check_length(str_len);
   assert(param->prefix_secret_key_size <= 8);
+  DECLARE_BUFFER(uint8_t, buf, buf_size);
+  if (buf == NULL) return 0;
   size_t size = fingera_from_base58_check(key_str, str_len, buf);
-  if (size <= 32) return 0;
+  if (size <= 32) goto end;
   size_t pre_size = size - 32;
   if (param->prefix_secret_key_size != pre_size) {
     if (param->prefix_secret_key_size != pre_size - 1) {
-      return 0;
+      goto end;
     }
     if (buf[size - 1] != 1) {
-      return 0;
+      goto end;
     }
     *is_compressed = 1;
   } else {
     *is_compressed = 0;
   }
   if (memcmp(buf, param->prefix_secret_key, param->prefix_secret_key_size) != 0)
-    return 0;
+    goto end;
   memcpy(key32, buf + param->prefix_secret_key_size, 32);
-  return 1;
+  ret = 1;
+end:
+  fingera_cleanse(buf, buf_size);
+  FREE_BUFFER(buf);
+  return ret;
 }
 
 int fingera_btc_key_derive(const void* key32, const void* chain32,
-- 
2.43.0


From a4349b0cbffb804d02ce31e309325a9070492433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 08/20] fix: base58 and address coding report failure when
 malloc fails

The buffer was used without checking it, and an address shorter than seven
characters asked for a buffer of nearly SIZE_MAX bytes.
---
 src/base58.c           | 2 ++
 src/btc/address.c      | 2 ++
 src/btc/base58_check.c | 1 +
 3 files changed, 5 insertions(+)

diff --git a/src/base58.c b/src/base58.c
index 73624d0..2cf446e 100644
--- a/src/base58.c
+++ b/src/base58.c
@@ -38,6 +38,7 @@ size_t fingera_to_base58(const void *buf, size_t buf_size, char *str) {
   // Allocate enough space in big-endian base58 representation.
   size_t size = (end - begin) * 138 / 100 + 1;
   DECLARE_BUFFER(uint8_t, b58, size);
+  if (b58 == NULL) return 0;
   memset(b58, 0, size);
 
   // Process the bytes.
@@ -85,6 +86,7 @@ size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
 
   size_t size = (size_t)(str_end - str) * 733 / 1000 + 1;
   DECLARE_BUFFER(uint8_t, b256, size);
+  if (b256 == NULL) return 0;
   memset(b256, 0, size);
 
   while (str != str_end && *str && !isspace((uint8_t)*str)) {
diff --git a/src/btc/address.c b/src/btc/address.c
index 9cc02dc..98f8fda 100644
--- a/src/btc/address.c
+++ b/src/btc/address.c
@@ -95,7 +95,9 @@ size_t fingera_to_address_witness_unknown(const void *version_and_program,
 static fingera_btc_address decode_bech32(const char *str, size_t str_len,
                                          void *out, size_t *out_size,
                                          const chain_parameters *param) {
+  if (str_len <= 7) return BTC_BAD_ADDRESS;
   DECLARE_BUFFER(char, buffer, str_len - 7);
+  if (buffer == NULL) return BTC_BAD_ADDRESS;
 
   char bech32_hrp[16];
   size_t hrp_size = sizeof(bech32_hrp);
diff --git a/src/btc/base58_check.c b/src/btc/base58_check.c
index a41a89e..4e86ab7 100644
--- a/src/btc/base58_check.c
+++ b/src/btc/base58_check.c
@@ -16,6 +16,7 @@ size_t fingera_to_base58_check(const void *buf, size_t buf_size,
   size_t size_of_all = size_of_data + 4;
 
   DECLARE_BUFFER(char, buffer, size_of_all);
+  if (buffer == NULL) return 0;
 
   memcpy(buffer, prefix, prefix_size);
   memcpy(buffer + prefix_size, buf, buf_size);
-- 
2.43.0


From 153be94c94d50e51a55a3b5e0958b50b493bebc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 09/20] fix: extended keys are not derived below depth 255

The depth wrapped to 0, so the 256th generation was recorded as a master key.
---
 src/btc/exkey.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/btc/exkey.c b/src/btc/exkey.c
index 6154e01..2e98ebb 100644
--- a/src/btc/exkey.c
+++ b/src/btc/exkey.c
@@ -24,6 +24,7 @@ void fingera_exkey_init(fingera_ex_key *key, const void *seed, size_t len) {
 
 int fingera_exkey_derive(const fingera_ex_key *key, fingera_ex_key *derived,
                          uint32_t child, uint32_t fingerprint) {
+  if (key->ext.depth == 0xFF) return 0;  // depth is one byte
   int r = fingera_btc_key_derive(key->key, key->ext.chain_code, derived->key,
                                  derived->ext.chain_code, child);
   if (r) {
@@ -37,6 +38,7 @@ int fingera_exkey_derive(const fingera_ex_key *key, fingera_ex_key *derived,
 int fingera_expubkey_derive(const fingera_ex_pubkey *pubkey,
                             fingera_ex_pubkey *derived, uint32_t child,
                             uint32_t fingerprint) {
+  if (pubkey->ext.depth == 0xFF) return 0;  // depth is one byte
   if (!fingera_btc_pubkey_derive(pubkey->c_pubkey, pubkey->ext.chain_code,
                                  derived->c_pubkey, derived->ext.chain_code,
                                  child))
-- 
2.43.0


From 85dbe96b6351b48612e40adfab0e3788324050fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 10/20] fix: varint decoding rejects values that do not fit in
 64 bits

They were silently reduced, so different encodings gave the same integer.
---
 src/compress_integer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compress_integer.c b/src/compress_integer.c
index 067d696..9d80465 100644
--- a/src/compress_integer.c
+++ b/src/compress_integer.c
@@ -27,8 +27,10 @@ size_t fingera_decode_varint(const void *buf, size_t size, uint64_t *out) {
   if (size > 10) size = 10;
   for (size_t i = 0; i < size; i++) {
     uint8_t byte = *in++;
+    if (*out > (UINT64_MAX >> 7)) return 0;  // does not fit in 64 bits
     *out = (*out << 7) | (byte & 0x7F);
     if (byte & 0x80) {
+      if (*out == UINT64_MAX) return 0;
       (*out)++;
     } else {
       return in - (uint8_t *)buf;
-- 
2.43.0


From 8394b827eabc86b10067293bdb5b1a10b7ebee03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 11/20] fix: zigzag round trip of INT64_MIN

llabs(INT64_MIN) is undefined and its encoding was decoded as 0.
---
 src/compress_integer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/compress_integer.c b/src/compress_integer.c
index 9d80465..d87a126 100644
--- a/src/compress_integer.c
+++ b/src/compress_integer.c
@@ -40,7 +40,7 @@ size_t fingera_decode_varint(const void *buf, size_t size, uint64_t *out) {
 }
 
 size_t fingera_encode_zigzag(int64_t value, void *buf) {
-  uint64_t uvalue = (uint64_t)llabs(value);
+  uint64_t uvalue = value < 0 ? 0 - (uint64_t)value : (uint64_t)value;
   uint64_t sign = value < 0 ? 1 : 0;
   uvalue <<= 1;
   uvalue |= sign;
@@ -54,7 +54,9 @@ size_t fingera_decode_zigzag(const void *buf, size_t size, int64_t *out) {
   if (len > 0) {
     sign = uvalue & 1;
     uvalue >>= 1;
-    if (sign) {
+    if (sign && uvalue == 0) {
+      *out = INT64_MIN;  // its magnitude has no bit left in the encoding
+    } else if (sign) {
       *out = -(int64_t)uvalue;
     } else {
       *out = (int64_t)uvalue;
-- 
2.43.0


From a0e0e4b39432b9ac31e2fd9dbab9b1d8e3ce9390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 12/20] fix: witness addresses with invalid padding are
 rejected (BIP173)

Over-long or non-zero padding was ignored, so several different texts
decoded to the same program.
---
 src/btc/address.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/btc/address.c b/src/btc/address.c
index 98f8fda..b1ac68a 100644
--- a/src/btc/address.c
+++ b/src/btc/address.c
@@ -110,6 +110,15 @@ static fingera_btc_address decode_bech32(const char *str, size_t str_len,
     return BTC_BAD_ADDRESS;
   }
 
+  // BIP173: less than 5 padding bits behind the program, all of them zero
+  int padding_bits = (bech32_size - 1) * 5 % 8;
+  if (padding_bits >= 5 ||
+      (bech32_size > 1 &&
+       (buffer[bech32_size - 1] & ((1 << padding_bits) - 1)) != 0)) {
+    FREE_BUFFER(buffer);
+    return BTC_BAD_ADDRESS;
+  }
+
   if (*out_size >= fingera_from_base32_raw_length(bech32_size - 1)) {
     int version = buffer[0];
     if (version == 0) {
-- 
2.43.0


From 04636b4ca31c8e69a535e4343e48a1a52d46829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 13/20] fix: base64 decoding rejects '=' before the end

It was decoded as 'A', so padding in the middle of the text gave wrong bytes
and no error.
---
 src/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.c b/src/base64.c
index 25f9780..978e652 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -12,7 +12,7 @@ static const unsigned char BASE64_STANDARD_DECODE[256] = {
     0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x3E,
     0xFF, 0xFF, 0xFF, 0x3F,  // +/
     0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3A, 0x3B, 0x3C, 0x3D, 0xFF,
-    0xFF, 0xFF, 0x00, 0xFF, 0xFF,  // 0-9 =
+    0xFF, 0xFF, 0xFF, 0xFF, 0xFF,  // 0-9
     0xFF, 0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09,
     0x0A, 0x0B, 0x0C, 0x0D, 0x0E,  // A-O
     0x0F, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19,
-- 
2.43.0


From 350a154cf03e65083ed57b76bfd200532b0cdf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 14/20] fix: HMAC wipes its copies of the key

The digests were wiped but the key block and its two masked copies stayed on
the dead stack.
---
 src/hash/sha2.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hash/sha2.c b/src/hash/sha2.c
index f89c394..224a6bb 100644
--- a/src/hash/sha2.c
+++ b/src/hash/sha2.c
@@ -800,6 +800,9 @@ void fingera_hmac_sha256(const void *key, size_t key_len, const void *msg,
 
   fingera_cleanse(digest_outter, sizeof(digest_outter));
   fingera_cleanse(digest_inner, sizeof(digest_inner));
+  fingera_cleanse(buffer, sizeof(buffer));
+  fingera_cleanse(key_inner, sizeof(key_inner));
+  fingera_cleanse(key_outter, sizeof(key_outter));
 }
 
 void fingera_hmac_sha512(const void *key, size_t key_len, const void *msg,
@@ -846,4 +849,7 @@ void fingera_hmac_sha512(const void *key, size_t key_len, const void *msg,
   }
   fingera_cleanse(digest_outter, sizeof(digest_outter));
   fingera_cleanse(digest_inner, sizeof(digest_inner));
+  fingera_cleanse(buffer, sizeof(buffer));
+  fingera_cleanse(key_inner, sizeof(key_inner));
+  fingera_cleanse(key_outter, sizeof(key_outter));
 }
-- 
2.43.0


From 6b5297b92b43901d2b38004e3fe5e17a42b3e47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 15/20] fix: deriving a hardened child from a public key fails

It aborted in debug builds and, with assertions off, returned a key that no
private key belongs to. A malformed public key no longer aborts either.
---
 src/btc/key.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/btc/key.c b/src/btc/key.c
index f9f8ade..8315d81 100644
--- a/src/btc/key.c
+++ b/src/btc/key.c
@@ -472,9 +472,10 @@ void fingera_btc_key_get_pub(const void* key32, void* pubkey64) {
 int fingera_btc_pubkey_derive(const void* encoded_pubkey33, const void* chain32,
                               void* out_pubkey33, void* out_chain32,
                               uint32_t child) {
-  assert((child >> 31) == 0);
+  // hardened children can only be derived from the private key
+  if ((child >> 31) != 0) return 0;
   const uint8_t* pubkey33 = (const uint8_t*)encoded_pubkey33;
-  assert(pubkey33[0] == 2 || pubkey33[0] == 3);
+  if (pubkey33[0] != 2 && pubkey33[0] != 3) return 0;
   uint8_t out[64];
   secp256k1_pubkey pubkey;
   if (!fingera_btc_pubkey_decode(encoded_pubkey33, 33, &pubkey)) return 0;
-- 
2.43.0


From dee70718ba120d5fcccf02f26c08c896bbe29e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:26 +0000
Subject: [PATCH 16/20] fix: random requests of 4 GiB and more are filled on
 Windows

The providers count with 32 bits, so only the remainder was filled and the
rest of the buffer was handed out as random.
---
 src/random.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/random.c b/src/random.c
index 16ae38e..1fe5555 100644
--- a/src/random.c
+++ b/src/random.c
@@ -5,6 +5,9 @@
 
 #include <windows.h>
 
+// The system calls count with 32 bits.
+#define RAND_PIECE_MAX 0x40000000
+
 ///////////////////////////>=Win Vista/////////////////////////////////////////
 #if defined(_MSC_VER) && defined(_WIN32_WINNT) && _WIN32_WINNT >= 0x0600
 #include <bcrypt.h>
@@ -20,9 +23,16 @@ void fingera_os_rand_bytes(void *buf, size_t buf_size) {
   if (ret != STATUS_SUCCESS) {
     FINGERA_FATAL("BCryptOpenAlgorithmProvider %lu", (unsigned int)ret);
   }
-  ret = BCryptGenRandom(hProvider, buf, buf_size, 0);
-  if (ret != STATUS_SUCCESS) {
-    FINGERA_FATAL("BCryptGenRandom %lu", (unsigned int)ret);
+  unsigned char *out = (unsigned char *)buf;
+  while (buf_size != 0) {
+    ULONG piece =
+        buf_size > RAND_PIECE_MAX ? RAND_PIECE_MAX : (ULONG)buf_size;
+    ret = BCryptGenRandom(hProvider, out, piece, 0);
+    if (ret != STATUS_SUCCESS) {
+      FINGERA_FATAL("BCryptGenRandom %lu", (unsigned int)ret);
+    }
+    out += piece;
+    buf_size -= piece;
   }
   BCryptCloseAlgorithmProvider(hProvider, 0);
 }
@@ -38,8 +48,15 @@ void fingera_os_rand_bytes(void *buf, size_t buf_size) {
                             CRYPT_VERIFYCONTEXT | CRYPT_SILENT)) {
     FINGERA_FATAL("CryptAcquireContextW");
   }
-  if (!CryptGenRandom(hProvider, (DWORD)buf_size, (BYTE *)buf)) {
-    FINGERA_FATAL("CryptGenRandom");
+  BYTE *out = (BYTE *)buf;
+  while (buf_size != 0) {
+    DWORD piece =
+        buf_size > RAND_PIECE_MAX ? RAND_PIECE_MAX : (DWORD)buf_size;
+    if (!CryptGenRandom(hProvider, piece, out)) {
+      FINGERA_FATAL("CryptGenRandom");
+    }
+    out += piece;
+    buf_size -= piece;
   }
   CryptReleaseContext(hProvider, 0);
 }
-- 
2.43.0


From 6a2c0dc94d450d9196abe7c6a525d94b6c0c64cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:50 +0000
Subject: [PATCH 17/20] fix: addresses of networks with long bech32 prefixes
 can be read, and have at most 90 characters

---
 src/btc/address.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/btc/address.c b/src/btc/address.c
index b1ac68a..ed6598d 100644
--- a/src/btc/address.c
+++ b/src/btc/address.c
@@ -7,6 +7,10 @@
 #include <stdlib.h>
 #include <string.h>
 
+// BIP173: a text has up to 90 characters, 7 of them behind the prefix
+#define BECH32_MAX_SIZE 90
+#define BECH32_MAX_HRP_SIZE 83
+
 size_t fingera_to_address_pubkey(const void *key_id, size_t key_id_size,
                                  char *out, size_t out_size,
                                  const chain_parameters *param) {
@@ -43,7 +47,7 @@ size_t fingera_to_address_witnessv0_keyhash(const void *key_hash,
       fingera_to_base32_raw(key_hash, key_hash_size, buffer + 1) + 1;
   size_t result_size =
       fingera_bech32_encode_length(param->bech32_hrp_size, buf_size);
-  if (out_size < result_size) return 0;
+  if (result_size > BECH32_MAX_SIZE || out_size < result_size) return 0;
 
   fingera_bech32_encode(param->bech32_hrp, param->bech32_hrp_size, buffer,
                         buf_size, out);
@@ -62,7 +66,7 @@ size_t fingera_to_address_witnessv0_scripthash(const void *script_hash,
       fingera_to_base32_raw(script_hash, script_hash_size, buffer + 1) + 1;
   size_t result_size =
       fingera_bech32_encode_length(param->bech32_hrp_size, buf_size);
-  if (out_size < result_size) return 0;
+  if (result_size > BECH32_MAX_SIZE || out_size < result_size) return 0;
 
   fingera_bech32_encode(param->bech32_hrp, param->bech32_hrp_size, buffer,
                         buf_size, out);
@@ -85,7 +89,7 @@ size_t fingera_to_address_witness_unknown(const void *version_and_program,
       1;
   size_t result_size =
       fingera_bech32_encode_length(param->bech32_hrp_size, buf_size);
-  if (out_size < result_size) return 0;
+  if (result_size > BECH32_MAX_SIZE || out_size < result_size) return 0;
 
   fingera_bech32_encode(param->bech32_hrp, param->bech32_hrp_size, buffer,
                         buf_size, out);
@@ -99,7 +103,7 @@ static fingera_btc_address decode_bech32(const char *str, size_t str_len,
   DECLARE_BUFFER(char, buffer, str_len - 7);
   if (buffer == NULL) return BTC_BAD_ADDRESS;
 
-  char bech32_hrp[16];
+  char bech32_hrp[BECH32_MAX_HRP_SIZE];
   size_t hrp_size = sizeof(bech32_hrp);
   int bech32_size =
       fingera_bech32_decode(str, str_len, bech32_hrp, &hrp_size, buffer);
-- 
2.43.0


From c70d964cf77a832c3f9bc157aa6dcaeeb0cdf5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:11 +0000
Subject: [PATCH 18/20] fix: byte order functions exist on FreeBSD, NetBSD and
 DragonFly

Their sys/endian.h defines be16toh, le16toh and so on itself; the betoh16
and letoh16 names these were redefined to are OpenBSD's, and do not exist
there, so everything that includes endian.h failed to link.
---
 include/fingera_libc/endian.h | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/include/fingera_libc/endian.h b/include/fingera_libc/endian.h
index bffb428..bbe64e0 100644
--- a/include/fingera_libc/endian.h
+++ b/include/fingera_libc/endian.h
@@ -44,15 +44,6 @@
 
 #include <sys/endian.h>
 
-#define be16toh(x) betoh16(x)
-#define le16toh(x) letoh16(x)
-
-#define be32toh(x) betoh32(x)
-#define le32toh(x) letoh32(x)
-
-#define be64toh(x) betoh64(x)
-#define le64toh(x) letoh64(x)
-
 #elif defined(__WINDOWS__)
 
 #include <stdlib.h>
-- 
2.43.0


From 735cca230216a00743bcb5587317414054a0fc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:46 +0000
Subject: [PATCH 19/20] fix: base58 text ends and begins with the same blanks
 in every locale

isspace follows the locale of the process: in Latin-1 and similar locales
(and in UTF-8 ones on macOS) the bytes 0x85 and 0xA0 are blanks, so that
texts with them around were taken for addresses and keys.
---
 src/base58.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/base58.c b/src/base58.c
index 2cf446e..9237917 100644
--- a/src/base58.c
+++ b/src/base58.c
@@ -1,5 +1,4 @@
 #include <assert.h>
-#include <ctype.h>
 #include <fingera_libc/base58.h>
 #include <fingera_libc/cleanse.h>
 #include <fingera_libc/sl/buffer.h>
@@ -71,10 +70,15 @@ size_t fingera_to_base58(const void *buf, size_t buf_size, char *str) {
   return zeroes;
 }
 
+// as isspace in the C locale, whatever locale the application has
+static inline int is_space(char c) {
+  return c == ' ' || (c >= '\t' && c <= '\r');
+}
+
 size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
   const char *str_end = str + str_len;
   // Skip leading spaces.
-  while (str != str_end && isspace((uint8_t)*str)) {
+  while (str != str_end && is_space(*str)) {
     str++;
   }
   size_t zeroes = 0;
@@ -89,7 +93,7 @@ size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
   if (b256 == NULL) return 0;
   memset(b256, 0, size);
 
-  while (str != str_end && *str && !isspace((uint8_t)*str)) {
+  while (str != str_end && *str && !is_space(*str)) {
     // Decode base58 character
     int carry = BASE58_DECODE[(uint8_t)*str];
     if (carry == -1) {
@@ -108,7 +112,7 @@ size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
     str++;
   }
   // Skip trailing spaces.
-  while (str != str_end && isspace((uint8_t)*str)) str++;
+  while (str != str_end && is_space(*str)) str++;
   if (str != str_end && *str != 0) {
     fingera_cleanse(b256, size);
     FREE_BUFFER(b256);
-- 
2.43.0


From da859ca574a7f5b798d5acffd5b437eb192d5bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:47 +0000
Subject: [PATCH 20/20] fix: bech32 prefixes are lowered the same way in every
 locale

In Turkish single-byte locales tolower('I') is the dotless i, so that texts
in upper case whose prefix has an I were refused.
---
 src/btc/bech32.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/btc/bech32.c b/src/btc/bech32.c
index b23472b..5ac69a2 100644
--- a/src/btc/bech32.c
+++ b/src/btc/bech32.c
@@ -2,7 +2,6 @@
 #include <fingera_libc/hex.h>
 
 #include <assert.h>
-#include <ctype.h>
 #include <string.h>
 
 static const char *BECH32_ENCODE = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
@@ -122,7 +121,8 @@ int fingera_bech32_decode(const char *str, size_t str_len, char *hrp,
   if (*hrp_size < (size_t)(pos - str)) return -3;
   *hrp_size = pos - str;
   for (size_t i = 0; i < *hrp_size; i++) {
-    hrp[i] = isupper(str[i]) ? tolower(str[i]) : str[i];
+    // not tolower, which changes I to another letter in some locales
+    hrp[i] = str[i] >= 'A' && str[i] <= 'Z' ? str[i] - 'A' + 'a' : str[i];
   }
   pos++;
   int8_t *out = (int8_t *)b32;
-- 
2.43.0

