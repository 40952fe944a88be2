From 49b208704094dfd53bd075ac4af46e1d9271797b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:34 +0000
Subject: [PATCH 01/28] fix: base64_decode() used a negative table index for
 bytes above 127

---
 encode/base64.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/encode/base64.c b/encode/base64.c
index ac5407a..31976be 100644
--- a/encode/base64.c
+++ b/encode/base64.c
@@ -153,13 +153,13 @@ base64_decode(const char* in_buf, unsigned in_size,
     /* Build table. */
     memset(table, 0xff, 256);
     for(i = 0; i < 62; i++)
-        table[(int) base64_table_core[i]] = i;
-    table[(int) options->ch62] = 62;
-    table[(int) options->ch63] = 63;
+        table[(uint8_t) base64_table_core[i]] = i;
+    table[(uint8_t) options->ch62] = 62;
+    table[(uint8_t) options->ch63] = 63;
 
     /* Validate the input. */
     for(in_off = 0; in_off < in_size; in_off++) {
-        if(table[(int) in[in_off]] == 0xff)
+        if(table[(uint8_t) in[in_off]] == 0xff)
             return -EINVAL;
     }
 
@@ -175,13 +175,13 @@ base64_decode(const char* in_buf, unsigned in_size,
             break;
 
         case 2:
-            if(table[(int) in[in_size-1]] & 0x4f)
+            if(table[(uint8_t) in[in_size-1]] & 0x4f)
                 return -EINVAL;
             out_size_needed += 1;
             break;
 
         case 3:
-            if(table[(int) in[in_size-1]] & 0xc3)
+            if(table[(uint8_t) in[in_size-1]] & 0xc3)
                 return -EINVAL;
             out_size_needed += 2;
             break;
@@ -197,10 +197,10 @@ base64_decode(const char* in_buf, unsigned in_size,
     /* Main loop. */
     in_off = 0;
     while(in_off + 4 <= in_size) {
-        v  = (unsigned)table[(int) in[in_off++]] << 18;
-        v |= (unsigned)table[(int) in[in_off++]] << 12;
-        v |= (unsigned)table[(int) in[in_off++]] << 6;
-        v |= (unsigned)table[(int) in[in_off++]];
+        v  = (unsigned)table[(uint8_t) in[in_off++]] << 18;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 12;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 6;
+        v |= (unsigned)table[(uint8_t) in[in_off++]];
 
         out[out_off++] = (v >> 16) & 0xff;
         out[out_off++] = (v >>  8) & 0xff;
@@ -208,13 +208,13 @@ base64_decode(const char* in_buf, unsigned in_size,
     }
 
     if(in_off + 2 == in_size) {
-        v  = (unsigned)table[(int) in[in_off++]] << 18;
-        v |= (unsigned)table[(int) in[in_off++]] << 12;
+        v  = (unsigned)table[(uint8_t) in[in_off++]] << 18;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 12;
         out[out_off++] = (v >> 16) & 0xff;
     } else if(in_off + 3 == in_size) {
-        v  = (unsigned)table[(int) in[in_off++]] << 18;
-        v |= (unsigned)table[(int) in[in_off++]] << 12;
-        v |= (unsigned)table[(int) in[in_off++]] << 6;
+        v  = (unsigned)table[(uint8_t) in[in_off++]] << 18;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 12;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 6;
         out[out_off++] = (v >> 16) & 0xff;
         out[out_off++] = (v >>  8) & 0xff;
     }
-- 
2.43.0


From 5a0aed6cdf7167cd39a2a0586fdf041919c859a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:34 +0000
Subject: [PATCH 02/28] fix: base64_encode() miscomputed the output size of
 huge inputs

---
 encode/base64.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/encode/base64.c b/encode/base64.c
index 31976be..abd9866 100644
--- a/encode/base64.c
+++ b/encode/base64.c
@@ -26,6 +26,7 @@
 #include "base64.h"
 
 #include <errno.h>
+#include <limits.h>
 #include <stdint.h>
 #include <string.h>
 
@@ -44,7 +45,7 @@ base64_encode(const void* in_buf, unsigned in_size,
     char table[64];
     const uint8_t* in = (const uint8_t*) in_buf;
     char* out = out_buf;
-    unsigned out_size_needed;
+    uint64_t out_size_needed;
     unsigned in_off = 0;
     unsigned out_off = 0;
     unsigned v;
@@ -54,7 +55,7 @@ base64_encode(const void* in_buf, unsigned in_size,
 
     /* Every three bytes are encoded into 4 characters of output.
      * Finally add +1 for zero terminator. */
-    out_size_needed = ((in_size + 2) / 3) * 4;
+    out_size_needed = (((uint64_t) in_size + 2) / 3) * 4;
 
     /* With padding disabled, we may need little less. */
     if(!options->pad) {
@@ -67,9 +68,15 @@ base64_encode(const void* in_buf, unsigned in_size,
 
     if(out_buf == NULL) {
         /* Recommend caller +1 for zero terminator. */
-        return out_size_needed + 1;
+        if(out_size_needed + 1 > INT_MAX)
+            return -EOVERFLOW;
+        return (int) out_size_needed + 1;
     }
 
+    /* The return type has to be able to represent the size. */
+    if(out_size_needed > INT_MAX)
+        return -EOVERFLOW;
+
     /* Check we have enough space in the output. */
     if(out_size < out_size_needed)
         return -ENOBUFS;
-- 
2.43.0


From 829f4f3956d52ac3c3d9d1d4cf1505cef63906db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:34 +0000
Subject: [PATCH 03/28] fix: base64_decode() overflowed on huge inputs

---
 encode/base64.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encode/base64.c b/encode/base64.c
index abd9866..e1ccb64 100644
--- a/encode/base64.c
+++ b/encode/base64.c
@@ -194,6 +194,10 @@ base64_decode(const char* in_buf, unsigned in_size,
             break;
     }
 
+    /* The return type has to be able to represent the size. */
+    if(out_size_needed > INT_MAX)
+        return -EOVERFLOW;
+
     if(out_buf == NULL)
         return out_size_needed;
 
-- 
2.43.0


From 0e421ba74755b5e18e753ecdb2d753df8d514b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:34 +0000
Subject: [PATCH 04/28] fix: hex_decode() accepted letters other than a-f as
 digits

---
 encode/hex.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/encode/hex.c b/encode/hex.c
index 7a3e6db..45213eb 100644
--- a/encode/hex.c
+++ b/encode/hex.c
@@ -87,9 +87,9 @@ hex_decode(const char* in_buf, unsigned in_size, void* out_buf, unsigned out_siz
     while(in < in_end  &&  out < out_end) {
         if('0' <= *in  &&  *in <= '9')
             *out = (*in - '0') << 4;
-        else if('a' <= *in  &&  *in <= 'z')
+        else if('a' <= *in  &&  *in <= 'f')
             *out = (*in - 'a' + 10) << 4;
-        else if('A' <= *in  &&  *in <= 'Z')
+        else if('A' <= *in  &&  *in <= 'F')
             *out = (*in - 'A' + 10) << 4;
         else
             return -1;
@@ -97,9 +97,9 @@ hex_decode(const char* in_buf, unsigned in_size, void* out_buf, unsigned out_siz
 
         if('0' <= *in  &&  *in <= '9')
             *out |= (*in - '0');
-        else if('a' <= *in  &&  *in <= 'z')
+        else if('a' <= *in  &&  *in <= 'f')
             *out |= (*in - 'a' + 10);
-        else if('A' <= *in  &&  *in <= 'Z')
+        else if('A' <= *in  &&  *in <= 'F')
             *out |= (*in - 'A' + 10);
         else
             return -1;
-- 
2.43.0


From 17cb310f278d828175d954df8e555e332c26dc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:34 +0000
Subject: [PATCH 05/28] fix: hex_encode() miscomputed the output size of huge
 inputs

---
 encode/hex.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/encode/hex.c b/encode/hex.c
index 45213eb..727bfe6 100644
--- a/encode/hex.c
+++ b/encode/hex.c
@@ -25,6 +25,8 @@
 
 #include "hex.h"
 
+#include <limits.h>
+
 
 int
 hex_encode(const void* in_buf, unsigned in_size,
@@ -39,6 +41,10 @@ hex_encode(const void* in_buf, unsigned in_size,
     char* out;
     char* out_end;
 
+    /* The return type has to be able to represent the size. */
+    if(in_size > (INT_MAX - 1) / 2)
+        return -1;
+
     if(out_buf == NULL)
         return in_size * 2 + 1;
 
-- 
2.43.0


From 08ff651d84de609034a75b58aa45dd877d0f14fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:12 +0000
Subject: [PATCH 06/28] fix: crc32() overflowed its loop counter for data above
 INT_MAX bytes

---
 hash/crc32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/crc32.c b/hash/crc32.c
index 09398c7..7738aff 100644
--- a/hash/crc32.c
+++ b/hash/crc32.c
@@ -122,7 +122,7 @@ crc32(const void* data, size_t n)
 {
     const uint8_t* bytes = (const uint8_t*) data;
     uint32_t crcreg = CRC32_INITXOR;
-    int i;
+    size_t i;
 
     for(i = 0; i < n; i++)
         crcreg = (crcreg >> 8) ^ crc32_table[((crcreg ^ bytes[i]) & 0xffU)];
-- 
2.43.0


From 1c433030ef77ef8bc841523c71eaea3c736ffc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:51 +0000
Subject: [PATCH 07/28] fix: buffer_reserve() and buffer_insert() overflowed on
 huge sizes

---
 data/buffer.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/data/buffer.c b/data/buffer.c
index 548d355..c6bdbfd 100644
--- a/data/buffer.c
+++ b/data/buffer.c
@@ -46,6 +46,8 @@ buffer_good_alloc_size(size_t requested_alloc)
          * (AFAIK, most allocators use 8 or 16 bytes for the purpose, but lets
          * be little bit more conservative.)
          */
+        if(requested_alloc > ((size_t)-1) / 2)
+            return requested_alloc;     /* Cannot be rounded up. */
         good_alloc = 512;
         while(good_alloc-32 < requested_alloc)
             good_alloc *= 2;
@@ -86,6 +88,9 @@ buffer_reserve(BUFFER* buf, size_t n)
 {
     size_t alloc;
 
+    if(n > ((size_t)-1) - buf->size)
+        return -1;
+
     if(buf->size + n < buf->alloc)
         return 0;
 
@@ -108,7 +113,7 @@ buffer_shrink(BUFFER* buf)
 void*
 buffer_insert_raw(BUFFER* buf, size_t off, size_t n)
 {
-    if(buf->size + n > buf->alloc) {
+    if(n > buf->alloc - buf->size) {
         if(buffer_reserve(buf, n) != 0)
             return NULL;
     }
-- 
2.43.0


From 0f6f3e9377b13ed29c5b5615b0dd652ae7b6941d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:51 +0000
Subject: [PATCH 08/28] fix: inserting zero bytes into an empty buffer was
 reported as an error

---
 data/buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/buffer.c b/data/buffer.c
index c6bdbfd..9316012 100644
--- a/data/buffer.c
+++ b/data/buffer.c
@@ -113,7 +113,7 @@ buffer_shrink(BUFFER* buf)
 void*
 buffer_insert_raw(BUFFER* buf, size_t off, size_t n)
 {
-    if(n > buf->alloc - buf->size) {
+    if(n > buf->alloc - buf->size  ||  buf->data == NULL) {
         if(buffer_reserve(buf, n) != 0)
             return NULL;
     }
-- 
2.43.0


From e8ce3cba85599ec31ab002bf2088344d270e0136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:51 +0000
Subject: [PATCH 09/28] fix: buffer_remove() overflowed on huge counts

---
 data/buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/buffer.c b/data/buffer.c
index 9316012..37ae637 100644
--- a/data/buffer.c
+++ b/data/buffer.c
@@ -141,7 +141,7 @@ buffer_insert(BUFFER* buf, size_t off, const void* data, size_t n)
 void
 buffer_remove(BUFFER* buf, size_t off, size_t n)
 {
-    if(off + n < buf->size) {
+    if(off < buf->size  &&  n < buf->size - off) {
         memmove((uint8_t*)buf->data + off, (uint8_t*)buf->data + off + n, buf->size - off - n);
         buf->size -= n;
     } else {
-- 
2.43.0


From 49e02487d132a9d5a5fbc51070c453845a5268e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:51 +0000
Subject: [PATCH 10/28] fix: array range functions overflowed on huge element
 counts

---
 data/buffer.h | 59 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/data/buffer.h b/data/buffer.h
index a15d99c..fddb844 100644
--- a/data/buffer.h
+++ b/data/buffer.h
@@ -234,6 +234,11 @@ BUFFER_INLINE__ void stack_swap(STACK* stack1, STACK* stack2)
  *** ARRAY structure ***
  ***********************/
 
+/* Size of n array elements. If not representable, the result is a size no
+ * buffer can ever have. */
+BUFFER_INLINE__ size_t array_bytes__(size_t n, size_t elem_size)
+        { return (n <= ((size_t)-1) / elem_size) ? n * elem_size : ((size_t)-1); }
+
 /* These are just an inline wrappers of the BUFFER structure. */
 typedef struct ARRAY_int8       ARRAY_int8;
 typedef struct ARRAY_uint8      ARRAY_uint8;
@@ -512,23 +517,23 @@ BUFFER_INLINE__ int array_ptr_insert(ARRAY_uint64* array, size_t index, void* pt
         }
 
 BUFFER_INLINE__ int array_int8_insert_n_raw(ARRAY_int8* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int8_t), n * sizeof(int8_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(int8_t), array_bytes__(n, sizeof(int8_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint8_insert_n_raw(ARRAY_uint8* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint8_t), n * sizeof(uint8_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(uint8_t), array_bytes__(n, sizeof(uint8_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int16_insert_n_raw(ARRAY_int16* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int16_t), n * sizeof(int16_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(int16_t), array_bytes__(n, sizeof(int16_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint16_insert_n_raw(ARRAY_uint16* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint16_t), n * sizeof(uint16_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(uint16_t), array_bytes__(n, sizeof(uint16_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int32_insert_n_raw(ARRAY_int32* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int32_t), n * sizeof(int32_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(int32_t), array_bytes__(n, sizeof(int32_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint32_insert_n_raw(ARRAY_uint32* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint32_t), n * sizeof(uint32_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(uint32_t), array_bytes__(n, sizeof(uint32_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int64_insert_n_raw(ARRAY_int64* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int64_t), n * sizeof(int64_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(int64_t), array_bytes__(n, sizeof(int64_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint64_insert_n_raw(ARRAY_uint64* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint64_t), n * sizeof(uint64_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(uint64_t), array_bytes__(n, sizeof(uint64_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_ptr_insert_n_raw(ARRAY_ptr* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(void*), n * sizeof(void*)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(void*), array_bytes__(n, sizeof(void*))) != NULL ? 0 : -1); }
 
 BUFFER_INLINE__ int array_int8_append_raw(ARRAY_int8* array)
         { return (buffer_append_raw(&array->buf, sizeof(int8_t)) != NULL ? 0 : -1); }
@@ -623,23 +628,23 @@ BUFFER_INLINE__ int array_ptr_append(ARRAY_ptr* array, void* ptr)
         }
 
 BUFFER_INLINE__ int array_int8_append_n(ARRAY_int8* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int8_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, array_bytes__(n, sizeof(int8_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint8_append_n(ARRAY_uint8* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint8_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, array_bytes__(n, sizeof(uint8_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int16_append_n(ARRAY_int16* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int16_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, array_bytes__(n, sizeof(int16_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint16_append_n(ARRAY_uint16* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint16_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, array_bytes__(n, sizeof(uint16_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int32_append_n(ARRAY_int32* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int32_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, array_bytes__(n, sizeof(int32_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint32_append_n(ARRAY_uint32* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint32_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, array_bytes__(n, sizeof(uint32_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int64_append_n(ARRAY_int64* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int64_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, array_bytes__(n, sizeof(int64_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint64_append_n(ARRAY_uint64* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint64_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, array_bytes__(n, sizeof(uint64_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_ptr_append_n(ARRAY_ptr* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(void*)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, array_bytes__(n, sizeof(void*))) != NULL ? 0 : -1); }
 
 BUFFER_INLINE__ void array_int8_remove(ARRAY_int8* array, size_t index)
         { buffer_remove(&array->buf, index * sizeof(int8_t), sizeof(int8_t)); }
@@ -661,23 +666,23 @@ BUFFER_INLINE__ void array_ptr_remove(ARRAY_ptr* array, size_t index)
         { buffer_remove(&array->buf, index * sizeof(void*), sizeof(void*)); }
 
 BUFFER_INLINE__ void array_int8_remove_n(ARRAY_int8* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(int8_t), n * sizeof(int8_t)); }
+        { buffer_remove(&array->buf, index * sizeof(int8_t), array_bytes__(n, sizeof(int8_t))); }
 BUFFER_INLINE__ void array_uint8_remove_n(ARRAY_uint8* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(uint8_t), n * sizeof(uint8_t)); }
+        { buffer_remove(&array->buf, index * sizeof(uint8_t), array_bytes__(n, sizeof(uint8_t))); }
 BUFFER_INLINE__ void array_int16_remove_n(ARRAY_int16* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(int16_t), n * sizeof(int16_t)); }
+        { buffer_remove(&array->buf, index * sizeof(int16_t), array_bytes__(n, sizeof(int16_t))); }
 BUFFER_INLINE__ void array_uint16_remove_n(ARRAY_uint16* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(uint16_t), n * sizeof(uint16_t)); }
+        { buffer_remove(&array->buf, index * sizeof(uint16_t), array_bytes__(n, sizeof(uint16_t))); }
 BUFFER_INLINE__ void array_int32_remove_n(ARRAY_int32* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(int32_t), n * sizeof(int32_t)); }
+        { buffer_remove(&array->buf, index * sizeof(int32_t), array_bytes__(n, sizeof(int32_t))); }
 BUFFER_INLINE__ void array_uint32_remove_n(ARRAY_uint32* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(uint32_t), n * sizeof(uint32_t)); }
+        { buffer_remove(&array->buf, index * sizeof(uint32_t), array_bytes__(n, sizeof(uint32_t))); }
 BUFFER_INLINE__ void array_int64_remove_n(ARRAY_int64* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(int64_t), n * sizeof(int64_t)); }
+        { buffer_remove(&array->buf, index * sizeof(int64_t), array_bytes__(n, sizeof(int64_t))); }
 BUFFER_INLINE__ void array_uint64_remove_n(ARRAY_uint64* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(uint64_t), n * sizeof(uint64_t)); }
+        { buffer_remove(&array->buf, index * sizeof(uint64_t), array_bytes__(n, sizeof(uint64_t))); }
 BUFFER_INLINE__ void array_ptr_remove_n(ARRAY_ptr* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(void*), n * sizeof(void*)); }
+        { buffer_remove(&array->buf, index * sizeof(void*), array_bytes__(n, sizeof(void*))); }
 
 BUFFER_INLINE__ int8_t* array_int8_acquire(ARRAY_int8* array, size_t* p_size)
         { void* data; data = buffer_acquire(&array->buf, p_size);
-- 
2.43.0


From 40d9d253e346072f94f2d9fc303b9a5eeb0b9578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:51 +0000
Subject: [PATCH 11/28] fix: array_ptr_insert() expected a wrong array type

---
 data/buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/buffer.h b/data/buffer.h
index fddb844..27e2d4a 100644
--- a/data/buffer.h
+++ b/data/buffer.h
@@ -507,7 +507,7 @@ BUFFER_INLINE__ int array_uint64_insert(ARRAY_uint64* array, size_t index, uint6
                 *addr = u64;
             return (addr != NULL) ? 0 : -1;
         }
-BUFFER_INLINE__ int array_ptr_insert(ARRAY_uint64* array, size_t index, void* ptr)
+BUFFER_INLINE__ int array_ptr_insert(ARRAY_ptr* array, size_t index, void* ptr)
         {
             void** addr;
             addr = (void**) buffer_insert_raw(&array->buf, index * sizeof(void*), sizeof(void*));
-- 
2.43.0


From 181e836c5aad24985c22837c57aa0f80804aae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 12/28] fix: value integer getters rounded some floats and
 doubles wrongly

---
 data/value.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/data/value.c b/data/value.c
index 36ad911..84c1e4a 100644
--- a/data/value.c
+++ b/data/value.c
@@ -92,8 +92,15 @@ struct DICT_tag {
 /* We don't want to include <math.h> just because of roundf() and round().
  * Especially as on some systems it requires explicit linking with math
  * library (-lm). */
-#define ROUNDF(inttype, x)   ((inttype)((x) >= 0.0f ? (x) + 0.5f : (x) - 0.5f))
-#define ROUNDD(inttype, x)   ((inttype)((x) >= 0.0 ? (x) + 0.5 : (x) - 0.5))
+#define ROUNDF(inttype, x)   ROUND__(inttype, float, (x), 0.5f)
+#define ROUNDD(inttype, x)   ROUND__(inttype, double, (x), 0.5)
+
+/* Truncate (towards zero), and only then see what has been cut off. (Adding
+ * 0.5 before the truncation would itself be rounded, see e.g. 0.49999997f or
+ * 8388609.0f.) */
+#define ROUND__(inttype, fptype, x, half)                                   \
+        ((inttype) ((inttype)(x) + ((x) - (fptype)(inttype)(x) >= (half)) - \
+                                   ((x) - (fptype)(inttype)(x) <= -(half))))
 
 
 static void*
-- 
2.43.0


From f4eab5014b4d54435b94b5cc9b61ffaa030369a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:43 +0000
Subject: [PATCH 13/28] fix: value_is_compatible() cast out of range floating
 point numbers

---
 data/value.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/data/value.c b/data/value.c
index 84c1e4a..ed4d461 100644
--- a/data/value.c
+++ b/data/value.c
@@ -210,20 +210,18 @@ value_is_compatible(const VALUE* v, VALUE_TYPE type)
             break;
 
         case VALUE_FLOAT:
-            return (type == VALUE_DOUBLE)  ||
-                   (type == VALUE_INT32 && value_float(v) == (float)value_int32(v))  ||
-                   (type == VALUE_UINT32 && value_float(v) == (float)value_uint32(v))  ||
-                   (type == VALUE_INT64 && value_float(v) == (float)value_int64(v))  ||
-                   (type == VALUE_UINT64 && value_float(v) == (float)value_uint64(v));
-            break;
-
         case VALUE_DOUBLE:
-            return (type == VALUE_FLOAT)  ||
-                   (type == VALUE_INT32 && value_double(v) == (double)value_int32(v))  ||
-                   (type == VALUE_UINT32 && value_double(v) == (double)value_uint32(v))  ||
-                   (type == VALUE_INT64 && value_double(v) == (double)value_int64(v))  ||
-                   (type == VALUE_UINT64 && value_double(v) == (double)value_uint64(v));
+        {
+            /* Note we have to check the range before the cast: Casting an out
+             * of range value to an integer type is an undefined behavior. */
+            double d = value_double(v);
+            return (type == VALUE_FLOAT || type == VALUE_DOUBLE)  ||
+                   (type == VALUE_INT32 && -2147483648.0 <= d && d < 2147483648.0 && d == (double)(int32_t)d)  ||
+                   (type == VALUE_UINT32 && 0.0 <= d && d < 4294967296.0 && d == (double)(uint32_t)d)  ||
+                   (type == VALUE_INT64 && -9223372036854775808.0 <= d && d < 9223372036854775808.0 && d == (double)(int64_t)d)  ||
+                   (type == VALUE_UINT64 && 0.0 <= d && d < 18446744073709551616.0 && d == (double)(uint64_t)d);
             break;
+        }
 
         default:
             break;
-- 
2.43.0


From 962bbc7a6b8f1d2d27767319567f9dd59a4d4c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 14/28] fix: value_string_length() was wrong for strings of 2
 GB or more

---
 data/value.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/value.c b/data/value.c
index ed4d461..54d77bb 100644
--- a/data/value.c
+++ b/data/value.c
@@ -712,11 +712,11 @@ value_string_length(const VALUE* v)
 
     payload = value_payload((VALUE*) v);
     while(payload[off] & 0x80) {
-        len |= (payload[off] & 0x7f) << shift;
+        len |= (size_t)(payload[off] & 0x7f) << shift;
         shift += 7;
         off++;
     }
-    len |= payload[off] << shift;
+    len |= (size_t)payload[off] << shift;
 
     return len;
 }
-- 
2.43.0


From 9fd6d5465023ecb217e3e1a56958a3be624ee60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 15/28] fix: value_init_string_() overflowed on huge lengths

---
 data/value.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/data/value.c b/data/value.c
index 54d77bb..97ce3ed 100644
--- a/data/value.c
+++ b/data/value.c
@@ -429,6 +429,12 @@ value_init_string_(VALUE* v, const char* str, size_t len)
     }
     off++;
 
+    /* Detect an overflow of the total size. */
+    if(len > SIZE_MAX - sizeof(VALUE) - (off + 1)) {
+        value_init_null(v);
+        return -1;
+    }
+
     payload = value_init(v, VALUE_STRING, off + len + 1);
     if(payload == NULL)
         return -1;
-- 
2.43.0


From eba9f3f388860fd4f6c4797074144380fab68a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:51 +0000
Subject: [PATCH 16/28] fix: value_array_remove_range() overflowed on huge
 counts

---
 data/value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/value.c b/data/value.c
index 97ce3ed..b593f4e 100644
--- a/data/value.c
+++ b/data/value.c
@@ -857,7 +857,7 @@ value_array_remove_range(VALUE* v, size_t index, size_t count)
     ARRAY* a = value_array_payload(v);
     size_t i;
 
-    if(a == NULL  ||  index + count > a->size)
+    if(a == NULL  ||  index > a->size  ||  count > a->size - index)
         return -1;
 
     for(i = index; i < index + count; i++)
-- 
2.43.0


From 35a147d81200d6e47ecbc74229bbaa36e67bcd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 17/28] fix: value_dict_add() returned already existing new
 values

---
 data/value.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/data/value.c b/data/value.c
index b593f4e..44c4dd9 100644
--- a/data/value.c
+++ b/data/value.c
@@ -1154,10 +1154,13 @@ value_dict_fix_after_insert(DICT* d, RBTREE** path, int path_len)
 VALUE*
 value_dict_add_(VALUE* v, const char* key, size_t key_len)
 {
+    size_t size = value_dict_size(v);
     VALUE* res;
 
+    /* Note value_is_new() would be no help here: The value may be still new
+     * also if it has been added earlier. */
     res = value_dict_get_or_add_(v, key, key_len);
-    return (value_is_new(res) ? res : NULL);
+    return (value_dict_size(v) > size ? res : NULL);
 }
 
 VALUE*
-- 
2.43.0


From 0f8e1a038b32699de5d6be3a245ae5d5cdf92fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:04 +0000
Subject: [PATCH 18/28] fix: value_path() wrapped around on huge array indexes

---
 data/value.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/data/value.c b/data/value.c
index 44c4dd9..eb47971 100644
--- a/data/value.c
+++ b/data/value.c
@@ -270,7 +270,13 @@ value_path_ex(VALUE* root, const char* path, int allow_build)
             }
 
             while('0' <= *token_beg  &&  *token_beg <= '9') {
-                index = index * 10 + (*token_beg - '0');
+                size_t digit = *token_beg - '0';
+
+                /* An index so large is always out of bounds. */
+                if(index > (SIZE_MAX - digit) / 10)
+                    return NULL;
+
+                index = index * 10 + digit;
                 token_beg++;
             }
             if(*token_beg != ']')
-- 
2.43.0


From 343ade40b1e837d3d579de242b06829afe262279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:04 +0000
Subject: [PATCH 19/28] fix: value_path() accepted some malformed array indexes

---
 data/value.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/data/value.c b/data/value.c
index eb47971..6b906a5 100644
--- a/data/value.c
+++ b/data/value.c
@@ -265,6 +265,9 @@ value_path_ex(VALUE* root, const char* path, int allow_build)
             if(token_beg[0] == '-'  ||  token_beg[0] == '+') {
                 sign = (token_beg[0] == '+') ? +1 : -1;
                 token_beg++;
+
+                if(token_beg == token_end-1)
+                    return NULL;
             } else {
                 sign = (token_end-1 - token_beg > 0) ? +1 : 0;
             }
@@ -279,7 +282,7 @@ value_path_ex(VALUE* root, const char* path, int allow_build)
                 index = index * 10 + digit;
                 token_beg++;
             }
-            if(*token_beg != ']')
+            if(token_beg != token_end-1)
                 return NULL;
 
             if(allow_build  &&  value_is_new(v)) {
-- 
2.43.0


From 7ede2a95f93f54d32fca0458f954e94cc754a0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 20/28] fix: memchunk_alloc() overflowed on huge sizes

---
 mem/memchunk.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mem/memchunk.c b/mem/memchunk.c
index 7682ed3..f15ecb5 100644
--- a/mem/memchunk.c
+++ b/mem/memchunk.c
@@ -48,8 +48,8 @@ memchunk_alloc(MEMCHUNK* chunk, size_t size)
     void* ptr;
 
     /* Not enough free space in the head block? */
-    if(chunk->head == NULL  ||  chunk->free_off + size > chunk->block_size) {
-        if(4 * size > chunk->block_size) {
+    if(chunk->head == NULL  ||  size > chunk->block_size - chunk->free_off) {
+        if(size > chunk->block_size / 4) {
             /* A big allocation.
              *
              * If application asks for more memory than the block size, we
@@ -63,6 +63,8 @@ memchunk_alloc(MEMCHUNK* chunk, size_t size)
              * future smaller requests. */
             MEMCHUNK_BLOCK* block;
 
+            if(size > (size_t) -1 - sizeof(MEMCHUNK_BLOCK))
+                return NULL;
             block = malloc(sizeof(MEMCHUNK_BLOCK) + size);
             if(block == NULL)
                 return NULL;
@@ -81,6 +83,8 @@ memchunk_alloc(MEMCHUNK* chunk, size_t size)
             /* Allocate a standard new block. */
             MEMCHUNK_BLOCK* block;
 
+            if(chunk->block_size > (size_t) -1 - sizeof(MEMCHUNK_BLOCK))
+                return NULL;
             block = malloc(sizeof(MEMCHUNK_BLOCK) + chunk->block_size);
             if(block == NULL)
                 return NULL;
-- 
2.43.0


From b5b0609898d45dc00a5faa0713d2216a14e6fa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:47 +0000
Subject: [PATCH 21/28] fix: FREEA() did not work for a variable named x

---
 mem/malloca.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mem/malloca.h b/mem/malloca.h
index b9fa607..f132c32 100644
--- a/mem/malloca.h
+++ b/mem/malloca.h
@@ -93,9 +93,9 @@ malloca_set_mark__(void* ptr, int mark)
 #define FREEA(ptr)                                                          \
     do {                                                                    \
         if((ptr) != NULL) {                                                 \
-            int* x = (int*)((char*)(ptr) - sizeof(void*));                  \
-            if(*x == 0xdddd)                                                \
-                free(x);                                                    \
+            int* malloca_mark__ = (int*)((char*)(ptr) - sizeof(void*));     \
+            if(*malloca_mark__ == 0xdddd)                                   \
+                free(malloca_mark__);                                       \
         }                                                                   \
     } while(0)
 
-- 
2.43.0


From 08cfad8c2903ed86717ea1ee538305786caf7445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:47 +0000
Subject: [PATCH 22/28] fix: MALLOCA() miscomputed its sizes for huge or
 compound sizes and small thresholds

---
 mem/malloca.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mem/malloca.h b/mem/malloca.h
index f132c32..08f0fd5 100644
--- a/mem/malloca.h
+++ b/mem/malloca.h
@@ -82,9 +82,10 @@ malloca_set_mark__(void* ptr, int mark)
  * anymore, release it with FREEA().
  */
 #define MALLOCA_(size, threshold)                                           \
-    ((size) < (threshold) - sizeof(void*)                                   \
-        ? malloca_set_mark__(CRE_alloca__(size + sizeof(void*)), 0xcccc)    \
-        : malloca_set_mark__(malloc(size + sizeof(void*)), 0xdddd))
+    ((threshold) > sizeof(void*)  &&  (size) < (threshold) - sizeof(void*)  \
+        ? malloca_set_mark__(CRE_alloca__((size) + sizeof(void*)), 0xcccc)  \
+        : malloca_set_mark__(((size) <= (size_t)-1 - sizeof(void*)          \
+                ? malloc((size) + sizeof(void*)) : NULL), 0xdddd))
 
 #define MALLOCA(size)       MALLOCA_((size), MALLOCA_THRESHOLD)
 
-- 
2.43.0


From 62da7fc33b46cea97b17fcc7a7e6d9adba7eb86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:30 +0000
Subject: [PATCH 23/28] fix: cmdline_read() respected short names of
 compiler-like options in groups

---
 misc/cmdline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/cmdline.c b/misc/cmdline.c
index bf518b7..1a2624e 100644
--- a/misc/cmdline.c
+++ b/misc/cmdline.c
@@ -49,7 +49,7 @@ cmdline_handle_short_opt_group(const CMDLINE_OPTION* options, const char* arggro
 
     for(i = 0; arggroup[i] != '\0'; i++) {
         for(opt = options; opt->id != 0; opt++) {
-            if(arggroup[i] == opt->shortname)
+            if(arggroup[i] == opt->shortname  &&  !(opt->flags & CMDLINE_OPTFLAG_COMPILERLIKE))
                 break;
         }
 
-- 
2.43.0


From b2e3d37517793b8f58d47bae995c01327f56683b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 24/28] fix: memstream Seek() with a huge offset

Adding an offset near the 64-bit maximum to the position or the size was a
signed overflow. Add in unsigned arithmetic: the result is then negative and
the seek is refused.
---
 win32/memstream.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/win32/memstream.c b/win32/memstream.c
index 98acb22..20c2766 100644
--- a/win32/memstream.c
+++ b/win32/memstream.c
@@ -132,8 +132,8 @@ memstream_Seek(IStream* self, LARGE_INTEGER delta, DWORD origin,
 
     switch(origin) {
         case STREAM_SEEK_SET:  pos.QuadPart = delta.QuadPart; break;
-        case STREAM_SEEK_CUR:  pos.QuadPart = s->pos + delta.QuadPart; break;
-        case STREAM_SEEK_END:  pos.QuadPart = s->size + delta.QuadPart; break;
+        case STREAM_SEEK_CUR:  pos.QuadPart = (LONGLONG) (s->pos + (ULONGLONG) delta.QuadPart); break;
+        case STREAM_SEEK_END:  pos.QuadPart = (LONGLONG) (s->size + (ULONGLONG) delta.QuadPart); break;
         default:               hr = STG_E_INVALIDPARAMETER; goto end;
     }
 
-- 
2.43.0


From 33ab0a70805b57f648329f0b282be83f33fe1478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 25/28] fix: memstream CopyTo() with a huge count

The sum of the position and the count could wrap around 64 bits, and then the
(truncated) count was used unlimited and the target was given data far beyond
the end of the buffer. This includes the usual way to ask for a copy of
everything, a count of 2^64 - 1.
---
 win32/memstream.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/win32/memstream.c b/win32/memstream.c
index 20c2766..331e974 100644
--- a/win32/memstream.c
+++ b/win32/memstream.c
@@ -177,11 +177,12 @@ memstream_CopyTo(IStream* self, IStream* other, ULARGE_INTEGER n,
                       ULARGE_INTEGER* n_read, ULARGE_INTEGER* n_written)
 {
     MEMSTREAM* s = MEMSTREAM_FROM_IFACE(self);
+    ULONG available = (s->pos < s->size ? s->size - s->pos : 0);
     ULONG written;
     HRESULT hr;
 
-    if(s->pos + n.QuadPart >= s->size)
-        n.QuadPart = (s->pos < s->size ? s->size - s->pos : 0);
+    if(n.QuadPart > available)
+        n.QuadPart = available;
 
     hr = IStream_Write(other, s->buffer + s->pos, (ULONG) n.QuadPart, &written);
 
-- 
2.43.0


From 3eb90ccce2efce9128ee898b1855bc2554a7aca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 26/28] fix: memstream_create() reported success when out of
 memory

ERROR_OUTOFMEMORY is a (positive) Win32 error code, not a HRESULT, so that
FAILED() is false for it. Return E_OUTOFMEMORY.
---
 win32/memstream.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/win32/memstream.c b/win32/memstream.c
index 331e974..dbe7b93 100644
--- a/win32/memstream.c
+++ b/win32/memstream.c
@@ -290,7 +290,7 @@ memstream_create(const BYTE* buffer, ULONG size, IStream** p_stream)
     s = (MEMSTREAM*) malloc(sizeof(MEMSTREAM));
     if(s == NULL) {
         *p_stream = NULL;
-        return ERROR_OUTOFMEMORY;
+        return E_OUTOFMEMORY;
     }
 
     s->buffer = buffer;
-- 
2.43.0


From f57eadb486dff9e45150a68bf44bdc1e4f75f29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 27/28] fix: memstream QueryInterface() claimed to implement
 IDispatch

The stream has no IDispatch methods, so any call through the interface given
would call a wrong method.
---
 win32/memstream.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/win32/memstream.c b/win32/memstream.c
index dbe7b93..e63637c 100644
--- a/win32/memstream.c
+++ b/win32/memstream.c
@@ -52,7 +52,6 @@ static HRESULT STDMETHODCALLTYPE
 memstream_QueryInterface(IStream* self, REFIID riid, void** obj)
 {
     if(IsEqualGUID(riid, &IID_IUnknown)  ||
-       IsEqualGUID(riid, &IID_IDispatch)  ||
        IsEqualGUID(riid, &IID_ISequentialStream)  ||
        IsEqualGUID(riid, &IID_IStream))
     {
-- 
2.43.0


From 1db932f51deadbf20ef2880f8a6b749d03980a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 28/28] fix: memstream_create_from_resource() failure without
 an error code

Some of the failures (e.g. the resource is empty) do not set the last error,
so that S_OK could be returned together with a NULL stream.
---
 win32/memstream.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/win32/memstream.c b/win32/memstream.c
index e63637c..36fb939 100644
--- a/win32/memstream.c
+++ b/win32/memstream.c
@@ -328,8 +328,12 @@ memstream_create_from_resource(HINSTANCE instance,
        (res_global = LoadResource(instance, res)) == NULL  ||
        (res_data = LockResource(res_global)) == NULL)
     {
+        DWORD err = GetLastError();
+
         *p_stream = NULL;
-        return HRESULT_FROM_WIN32(GetLastError());
+
+        /* E.g. an empty resource is not accompanied with any error code. */
+        return (err != ERROR_SUCCESS ? HRESULT_FROM_WIN32(err) : E_FAIL);
     }
 
     return memstream_create(res_data, res_size, p_stream);
-- 
2.43.0

