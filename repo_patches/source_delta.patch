From 5ed3cd83a7f3d5c53fee1116403f0a8dd8c2047c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:08 +0000
Subject: [PATCH 01/22] fix: strview_split_line() must leave the source
 unmodified when no line ending is found

---
 strview.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/strview.c b/strview.c
index 4edea19..dbf9b98 100644
--- a/strview.c
+++ b/strview.c
@@ -325,11 +325,8 @@ strview_t strview_split_line(strview_t* strview_ptr, char* eol)
 				*eol = e;
 			*strview_ptr = src;
 		}
-		else	//a line ending was not found, restore the source, and return an invalid strview_t
-		{
-			*strview_ptr = result;
+		else	//a line ending was not found, leave the source as it was, and return an invalid strview_t
 			result = STRVIEW_INVALID;
-		};
 	};
 	return result;
 }
-- 
2.43.0


From 425d8f3aa1c1303b0f531cd9120d7d654eca7ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:09 +0000
Subject: [PATCH 02/22] fix: strview_split_line() must not look past the end of
 the source for the rest of a line ending

---
 strview.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strview.c b/strview.c
index dbf9b98..fc8cef0 100644
--- a/strview.c
+++ b/strview.c
@@ -316,7 +316,7 @@ strview_t strview_split_line(strview_t* strview_ptr, char* eol)
 		if(strview_is_valid(src))	//a line ending was found
 		{
 			e = result.data[result.size];
-			if(e + src.data[0] == '\r'+'\n')
+			if(src.size && e + src.data[0] == '\r'+'\n')
 			{
 				strview_pop_first_char(&src);
 				e = 0;
-- 
2.43.0


From 082177fcd4656eeb9de6013253abc611cc5d01a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 03/22] fix: strbuf_append_vprintf() must not add a failed
 vsnprintf() result to the buffer size

---
 strbuf.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/strbuf.c b/strbuf.c
index ebce1da..a3e2a8c 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -211,7 +211,7 @@ strview_t strbuf_append_vprintf(strbuf_t** buf_ptr, const char* format, va_list
 		size = buf->size;
 		append_size = vsnprintf(NULL, 0, format, va);
 
-		failed = add_will_overflow_int(size, append_size);
+		failed = append_size < 0 || add_will_overflow_int(size, append_size);
 		if(!failed)
 		{
 			size += append_size;
@@ -222,7 +222,13 @@ strview_t strbuf_append_vprintf(strbuf_t** buf_ptr, const char* format, va_list
 		};
 
 		if(!failed)
-			buf->size += vsnprintf(&buf->cstr[buf->size], buf->capacity - buf->size + 1, format, vb);
+		{
+			append_size = vsnprintf(&buf->cstr[buf->size], buf->capacity - buf->size + 1, format, vb);
+			failed = append_size < 0 || append_size > buf->capacity - buf->size;
+		};
+
+		if(!failed)
+			buf->size += append_size;
 		else
 			empty_buf(buf);
 
-- 
2.43.0


From a5703b404ed8fa51e97b562cae4f1d419491a0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:11 +0000
Subject: [PATCH 04/22] fix: the prnf functions must keep the caller's buffer
 pointer current while they grow the buffer

---
 strbuf.c | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/strbuf.c b/strbuf.c
index a3e2a8c..c321a02 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -256,21 +256,18 @@ strview_t strbuf_prnf(strbuf_t** buf_ptr, const char* format, ...)
 
 strview_t strbuf_vprnf(strbuf_t** buf_ptr, const char* format, va_list va)
 {
-	strbuf_t* buf;
 	strview_t str = STRVIEW_INVALID;
 	int char_count;
 	if(buf_ptr && *buf_ptr)
 	{
-		buf = *buf_ptr;
-		empty_buf(buf);
+		empty_buf(*buf_ptr);
 
-		char_count = vfptrprnf(char_handler_for_prnf, &buf,  format, va);
+		char_count = vfptrprnf(char_handler_for_prnf, buf_ptr,  format, va);
 
-		if(char_count > buf->size)
-			empty_buf(buf);
+		if(char_count > (*buf_ptr)->size)
+			empty_buf(*buf_ptr);
 
-		str = strbuf_view(&buf);
-		*buf_ptr = buf;
+		str = strbuf_view(buf_ptr);
 	};
 	return str;
 }
@@ -290,21 +287,17 @@ strview_t strbuf_append_prnf(strbuf_t** buf_ptr, const char* format, ...)
 
 strview_t strbuf_append_vprnf(strbuf_t** buf_ptr, const char* format, va_list va)
 {
-	strbuf_t* buf;
 	strview_t str = STRVIEW_INVALID;
 	int char_count;
 	if(buf_ptr && *buf_ptr)
 	{
-		buf = *buf_ptr;
-
-		char_count = buf->size;
-		char_count += vfptrprnf(char_handler_for_prnf, &buf,  format, va);
+		char_count = (*buf_ptr)->size;
+		char_count += vfptrprnf(char_handler_for_prnf, buf_ptr,  format, va);
 
-		if(char_count > buf->size || char_count < 0)
-			empty_buf(buf);
+		if(char_count > (*buf_ptr)->size || char_count < 0)
+			empty_buf(*buf_ptr);
 
-		str = strbuf_view(&buf);
-		*buf_ptr = buf;
+		str = strbuf_view(buf_ptr);
 	};
 	return str;
 }
-- 
2.43.0


From 1794132e099d34e1cb62887e15c0b66a9925bd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:08 +0000
Subject: [PATCH 05/22] fix: strbuf_encrypt() and strbuf_decrypt() must return
 a view of the buffer as documented

---
 accessories/strbuf_crypt/strbuf_crypt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index 1886074..495fa25 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -70,11 +70,13 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 			buf->size = fptr((uint8_t*)buf->cstr, buf->size, key, ivec, ctx_ptr);
 			buf->allocator.allocator(&buf->allocator, ctx_ptr, 0);
 			buf->cstr[buf->size] = 0;
+			retval = strbuf_view(&buf);
 		}
 		else if(buf->capacity >= cypher_size(buf->size))
 		{
 			buf->size = encdec_with_ctx_on_stack(fptr, (uint8_t*)buf->cstr, buf->size, key, ivec);
 			buf->cstr[buf->size] = 0;
+			retval = strbuf_view(&buf);
 		};
 		*buf_ptr = buf;	
 	};
-- 
2.43.0


From 32220e1cbf66b1eba8a409ff8cf51cae1d5c6878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:09 +0000
Subject: [PATCH 06/22] fix: strbuf_decrypt() must not demand room for padding
 it removes

---
 accessories/strbuf_crypt/strbuf_crypt.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index 495fa25..072a9ae 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -59,20 +59,22 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 	strview_t retval = STRVIEW_INVALID;
 	aes256_ctx_t* ctx_ptr;
 	strbuf_t* buf;
+	int capacity_needed;
 
 	if(buf_ptr && *buf_ptr)
 	{
 		buf = *buf_ptr;
+		capacity_needed = (fptr == enc256cbc) ? cypher_size(buf->size) : buf->size;	//decrypting never needs more room
 		if(buf->allocator.allocator)
 		{
-			strbuf_grow(&buf, cypher_size(buf->size));
+			strbuf_grow(&buf, capacity_needed);
 			ctx_ptr = buf->allocator.allocator(&buf->allocator, NULL, sizeof(*ctx_ptr));
 			buf->size = fptr((uint8_t*)buf->cstr, buf->size, key, ivec, ctx_ptr);
 			buf->allocator.allocator(&buf->allocator, ctx_ptr, 0);
 			buf->cstr[buf->size] = 0;
 			retval = strbuf_view(&buf);
 		}
-		else if(buf->capacity >= cypher_size(buf->size))
+		else if(buf->capacity >= capacity_needed)
 		{
 			buf->size = encdec_with_ctx_on_stack(fptr, (uint8_t*)buf->cstr, buf->size, key, ivec);
 			buf->cstr[buf->size] = 0;
-- 
2.43.0


From 4f64a37118af3eecf30095c8e00a5a2b04e479f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:10 +0000
Subject: [PATCH 07/22] fix: strbuf_decrypt() must refuse data whose size or
 padding is not valid

---
 accessories/strbuf_crypt/strbuf_crypt.c | 35 +++++++++++++++++++------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index 072a9ae..7f4bb95 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -34,6 +34,7 @@
 	static int dec256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], aes256_ctx_t* ctx);
 	static int cypher_size(int content_size);
 	static int encdec_with_ctx_on_stack(encdec_fptr_t fptr, uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16]);
+	static strview_t set_result_size(strbuf_t** buf_ptr, int result_size);
 	static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t key[32], uint8_t ivec[16]);
 
 //********************************************************************************************************
@@ -60,6 +61,7 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 	aes256_ctx_t* ctx_ptr;
 	strbuf_t* buf;
 	int capacity_needed;
+	int result_size;
 
 	if(buf_ptr && *buf_ptr)
 	{
@@ -69,16 +71,14 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 		{
 			strbuf_grow(&buf, capacity_needed);
 			ctx_ptr = buf->allocator.allocator(&buf->allocator, NULL, sizeof(*ctx_ptr));
-			buf->size = fptr((uint8_t*)buf->cstr, buf->size, key, ivec, ctx_ptr);
+			result_size = fptr((uint8_t*)buf->cstr, buf->size, key, ivec, ctx_ptr);
 			buf->allocator.allocator(&buf->allocator, ctx_ptr, 0);
-			buf->cstr[buf->size] = 0;
-			retval = strbuf_view(&buf);
+			retval = set_result_size(&buf, result_size);
 		}
 		else if(buf->capacity >= capacity_needed)
 		{
-			buf->size = encdec_with_ctx_on_stack(fptr, (uint8_t*)buf->cstr, buf->size, key, ivec);
-			buf->cstr[buf->size] = 0;
-			retval = strbuf_view(&buf);
+			result_size = encdec_with_ctx_on_stack(fptr, (uint8_t*)buf->cstr, buf->size, key, ivec);
+			retval = set_result_size(&buf, result_size);
 		};
 		*buf_ptr = buf;	
 	};
@@ -86,6 +86,15 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 	return retval;
 }
 
+// set the size of the result, or empty the buffer and return an invalid view if there is none (result_size < 0)
+static strview_t set_result_size(strbuf_t** buf_ptr, int result_size)
+{
+	strbuf_t* buf = *buf_ptr;
+	buf->size = (result_size < 0) ? 0 : result_size;
+	buf->cstr[buf->size] = 0;
+	return (result_size < 0) ? STRVIEW_INVALID : strbuf_view(buf_ptr);
+}
+
 static int encdec_with_ctx_on_stack(encdec_fptr_t fptr, uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16])
 {
 	aes256_ctx_t ctx;
@@ -116,18 +125,21 @@ static int enc256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], a
 }
 
 // decrypt buf, using 256bit key and 128bit init vector.
-// len must be a multiple of 16
-// returns the size of the decoded output in bytes
+// returns the size of the decoded output in bytes, or -1 if len or the decoded padding is not valid
 static int dec256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], aes256_ctx_t* ctx)
 {
 	int block_count = len/AES_BLOCK_SIZE;
 	int out_len;
 	int pad_len;
+	int i;
 	uint8_t buf1[AES_BLOCK_SIZE];
 	uint8_t buf2[AES_BLOCK_SIZE];
 	uint8_t (*this_xor)[AES_BLOCK_SIZE] = &buf1;
 	uint8_t (*next_xor)[AES_BLOCK_SIZE] = &buf2;
 
+	if(len <= 0 || len % AES_BLOCK_SIZE)
+		return -1;
+
 	aes256_init(key, ctx);
 	memcpy(this_xor, ivec, AES_BLOCK_SIZE);
 	while(block_count--)
@@ -141,6 +153,13 @@ static int dec256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], a
 
 	pad_len = buf[-1];
 	out_len = len - pad_len;
+	if(pad_len < 1 || pad_len > AES_BLOCK_SIZE)
+		return -1;
+	for(i = 1; i <= pad_len; i++)
+	{
+		if(buf[-i] != pad_len)
+			return -1;
+	};
 
 	return out_len;
 }
-- 
2.43.0


From 0c443943809ae71aab3553518a4a338ac138a8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 08/22] fix: strbuf_encrypt() must keep the caller's buffer
 pointer current before it allocates again

---
 accessories/strbuf_crypt/strbuf_crypt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index 7f4bb95..c80954f 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -69,7 +69,8 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 		capacity_needed = (fptr == enc256cbc) ? cypher_size(buf->size) : buf->size;	//decrypting never needs more room
 		if(buf->allocator.allocator)
 		{
-			strbuf_grow(&buf, capacity_needed);
+			strbuf_grow(buf_ptr, capacity_needed);
+			buf = *buf_ptr;
 			ctx_ptr = buf->allocator.allocator(&buf->allocator, NULL, sizeof(*ctx_ptr));
 			result_size = fptr((uint8_t*)buf->cstr, buf->size, key, ivec, ctx_ptr);
 			buf->allocator.allocator(&buf->allocator, ctx_ptr, 0);
-- 
2.43.0


From 2d79c442c20f114c1011914aa3132bb6a6adf93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:12 +0000
Subject: [PATCH 09/22] fix: strbuf_encrypt() must refuse contents whose
 encrypted size exceeds INT_MAX

---
 accessories/strbuf_crypt/strbuf_crypt.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index c80954f..06a0c21 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -5,6 +5,7 @@
 	https://en.wikipedia.org/wiki/Block_cipher_mode_of_operation#Cipher_block_chaining_(CBC)
 */
 	#include <stdint.h>
+	#include <limits.h>
 
 	#include "strbuf.h"
 	#include "strview.h"
@@ -67,7 +68,9 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 	{
 		buf = *buf_ptr;
 		capacity_needed = (fptr == enc256cbc) ? cypher_size(buf->size) : buf->size;	//decrypting never needs more room
-		if(buf->allocator.allocator)
+		if(capacity_needed < 0)
+			retval = set_result_size(&buf, -1);
+		else if(buf->allocator.allocator)
 		{
 			strbuf_grow(buf_ptr, capacity_needed);
 			buf = *buf_ptr;
@@ -165,9 +168,10 @@ static int dec256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], a
 	return out_len;
 }
 
+// returns the size of the encrypted content in bytes, or -1 if that exceeds the maximum size of a buffer
 static int cypher_size(int content_size)
 {
 	int block_count = content_size/AES_BLOCK_SIZE + 1;
-	return block_count * AES_BLOCK_SIZE;
+	return (block_count > INT_MAX/AES_BLOCK_SIZE) ? -1 : block_count * AES_BLOCK_SIZE;
 }
 
-- 
2.43.0


From 5d7d52f2b5512476ea4a0917b05e787b6702b586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:13 +0000
Subject: [PATCH 10/22] fix: parse infinity in full, the misspelt keyword left
 inity unconsumed

---
 strnum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strnum.c b/strnum.c
index 3a5fc3b..f78016f 100644
--- a/strnum.c
+++ b/strnum.c
@@ -514,7 +514,7 @@ static int process_float_components(float_components_t* fc)
 static float consume_float_special(float_components_t* fc)
 {
 	float value = 0.0;
-	if(strview_starts_with_nocase(fc->num, "infinty"))
+	if(strview_starts_with_nocase(fc->num, "infinity"))
 	{
 		value = INFINITY;
 		fc->num = strview_sub(fc->num, strlen("infinity"), INT_MAX);
-- 
2.43.0


From 1c74ed8f4f2a35b2eceafef1b324ff52ba56af1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:15 +0000
Subject: [PATCH 11/22] fix: zero with a large exponent is zero, not the NaN of
 0 times infinity

---
 strnum.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strnum.c b/strnum.c
index f78016f..bdeb1e7 100644
--- a/strnum.c
+++ b/strnum.c
@@ -567,7 +567,8 @@ static int consume_exponent(float_components_t* fc)
 		fractional_part *= powfunc(10, fractional_power);						\
 		result += fractional_part;												\
 	};																			\
-	result *= powfunc(10, exp_value);											\
+	if(result != 0)																\
+		result *= powfunc(10, exp_value);										\
 	return result;
 
 static float make_float(strview_t integral_digits, strview_t fractional_digits, int exp_value)
-- 
2.43.0


From 020f691b669b0833558e85af00974e9fa6e4fc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:37 +0000
Subject: [PATCH 12/22] fix: parse floating point numbers with more than 39
 integral digits, later digits rescaled the earlier ones

---
 strnum.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/strnum.c b/strnum.c
index bdeb1e7..d6e3d4f 100644
--- a/strnum.c
+++ b/strnum.c
@@ -554,8 +554,7 @@ static int consume_exponent(float_components_t* fc)
 	while(integral_digits.size)													\
 	{																			\
 		consume_decimal_digits(&ull, &integral_digits);							\
-		result += (typ)ull;														\
-		result *= powfunc(10, integral_digits.size);							\
+		result += (typ)ull * powfunc(10, integral_digits.size);					\
 	};																			\
 	fractional_digits = strview_trim_end(fractional_digits, "0");				\
 	while(fractional_digits.size)												\
-- 
2.43.0


From cf8ef19ab1019f23c16cebf5d1dff7623d4c0800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:08 +0000
Subject: [PATCH 13/22] fix: only 0 and 1 are binary digits, not the bytes 0xB0
 and 0xB1

---
 strnum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strnum.c b/strnum.c
index d6e3d4f..5516383 100644
--- a/strnum.c
+++ b/strnum.c
@@ -887,7 +887,7 @@ static int xdigit_value(char c)
 
 static bool isbdigit(char c)
 {
-	return (c & 0x7E) == 0x30;
+	return c == '0' || c == '1';
 }
 
 static strview_t split_digits(strview_t* src)
-- 
2.43.0


From 0c353d767958aff79d5ae7210a1b029efcffe898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:56 +0000
Subject: [PATCH 14/22] fix: the room given to vsnprintf() must not wrap for a
 buffer with a capacity of INT_MAX

---
 strbuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strbuf.c b/strbuf.c
index c321a02..e1e28eb 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -223,7 +223,7 @@ strview_t strbuf_append_vprintf(strbuf_t** buf_ptr, const char* format, va_list
 
 		if(!failed)
 		{
-			append_size = vsnprintf(&buf->cstr[buf->size], buf->capacity - buf->size + 1, format, vb);
+			append_size = vsnprintf(&buf->cstr[buf->size], (size_t)(buf->capacity - buf->size) + 1, format, vb);
 			failed = append_size < 0 || append_size > buf->capacity - buf->size;
 		};
 
-- 
2.43.0


From da2f50c9fa944eeeb312eb74513d82c916593f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:26 +0000
Subject: [PATCH 15/22] fix: strbuf_to_cstr() must not ask for a wrapped size
 when the contents are INT_MAX bytes

---
 strbuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strbuf.c b/strbuf.c
index e1e28eb..f0ce7a8 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -375,7 +375,7 @@ char* strbuf_to_cstr(strbuf_t** buf_ptr)
 			allocator = (*buf_ptr)->allocator;
 			str = (void*)(*buf_ptr);
 			memmove(str, (*buf_ptr)->cstr, len);
-			str = allocator.allocator(&allocator, str, len+1);
+			str = allocator.allocator(&allocator, str, (size_t)len+1);
 		}
 		else
 			str = (*buf_ptr)->cstr;
-- 
2.43.0


From d47099d1c72f81b175f3c310a30820041cf59e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:39 +0000
Subject: [PATCH 16/22] Revert "fix: strview_split_line() must not look past
 the end of the source for the rest of a line ending"

The remainder of a fully consumed source still points at its last character, so nothing past the end was read.
---
 strview.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strview.c b/strview.c
index fc8cef0..dbf9b98 100644
--- a/strview.c
+++ b/strview.c
@@ -316,7 +316,7 @@ strview_t strview_split_line(strview_t* strview_ptr, char* eol)
 		if(strview_is_valid(src))	//a line ending was found
 		{
 			e = result.data[result.size];
-			if(src.size && e + src.data[0] == '\r'+'\n')
+			if(e + src.data[0] == '\r'+'\n')
 			{
 				strview_pop_first_char(&src);
 				e = 0;
-- 
2.43.0


From d5f40c7245f4dec1fdd3c7dd763ec15bfeacd49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:14 +0000
Subject: [PATCH 17/22] fix: fractional digits far behind the point must not be
 lost to an underflow of their weight

---
 strnum.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/strnum.c b/strnum.c
index 5516383..61c8a6f 100644
--- a/strnum.c
+++ b/strnum.c
@@ -3,6 +3,7 @@
 
 	#ifndef STRNUM_NOFLOAT
 		#include <math.h>
+		#include <float.h>
 	#endif
 	#include <limits.h>
 	#include <ctype.h>
@@ -546,7 +547,7 @@ static int consume_exponent(float_components_t* fc)
 	return err;
 }
 
-#define make_float_type(typ, powfunc)											\
+#define make_float_type(typ, powfunc, min_power)								\
 	typ result = 0.0;															\
 	typ fractional_part;														\
 	unsigned long long ull;														\
@@ -563,7 +564,13 @@ static int consume_exponent(float_components_t* fc)
 		consume_decimal_digits(&ull, &fractional_digits);						\
 		fractional_power += fractional_digits.size;								\
 		fractional_part = (typ)ull;												\
-		fractional_part *= powfunc(10, fractional_power);						\
+		if(fractional_power < min_power)	/* this weight would underflow, scale in two steps */ \
+		{																		\
+			fractional_part *= powfunc(10, min_power);							\
+			fractional_part *= powfunc(10, fractional_power - min_power);		\
+		}																		\
+		else																	\
+			fractional_part *= powfunc(10, fractional_power);					\
 		result += fractional_part;												\
 	};																			\
 	if(result != 0)																\
@@ -572,17 +579,17 @@ static int consume_exponent(float_components_t* fc)
 
 static float make_float(strview_t integral_digits, strview_t fractional_digits, int exp_value)
 {
-	make_float_type(float, powf)
+	make_float_type(float, powf, FLT_MIN_10_EXP)
 }
 
 static double make_double(strview_t integral_digits, strview_t fractional_digits, int exp_value)
 {
-	make_float_type(double, pow)
+	make_float_type(double, pow, DBL_MIN_10_EXP)
 }
 
 static long double make_ldouble(strview_t integral_digits, strview_t fractional_digits, int exp_value)
 {
-	make_float_type(long double, powl)
+	make_float_type(long double, powl, LDBL_MIN_10_EXP)
 }
 
 #endif
-- 
2.43.0


From 8859b62aa5a61dd1618a23b9a5ff1551307247f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:31 +0000
Subject: [PATCH 18/22] fix: strview_dequote() must only remove quotes, not any
 character found at both ends

---
 strview.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strview.c b/strview.c
index dbf9b98..26e60b9 100644
--- a/strview.c
+++ b/strview.c
@@ -510,6 +510,7 @@ strview_t strview_dequote(strview_t src)
 	if(result.size > 1)
 		quote_char = result.data[0];
 	while( 	(result.size > 1)
+	 && 	(quote_char == '\"' || quote_char == '\'')	//other characters are not quotes
 	 && 	(result.data[0] == quote_char)
 	 && 	(result.data[result.size-1] == quote_char) )
 		result = strview_sub(result, 1, -1);
-- 
2.43.0


From eb9b0ed6974dc799dfb58c29a9871d3ce5af2c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:11 +0000
Subject: [PATCH 19/22] fix: floating point numbers with many digits and a
 large exponent became 0 or NaN, or were refused, although representable

---
 strnum.c | 55 +++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/strnum.c b/strnum.c
index 61c8a6f..251bbc8 100644
--- a/strnum.c
+++ b/strnum.c
@@ -547,49 +547,64 @@ static int consume_exponent(float_components_t* fc)
 	return err;
 }
 
-#define make_float_type(typ, powfunc, min_power)								\
+// Multiply value by 10^power. A large power is applied in steps, as 10^power alone may overflow or underflow when the product doesn't.
+#define scale_type(typ, powfunc, min_power)										\
+	int step;																	\
+	while(power && value != 0 && value != INFINITY)								\
+	{																			\
+		step = (power < min_power) ? min_power:(power > -(min_power)) ? -(min_power):(int)power;	\
+		value *= powfunc(10, step);												\
+		power -= step;															\
+	};																			\
+	return value;
+
+static float scale_float(float value, long long power)
+{
+	scale_type(float, powf, FLT_MIN_10_EXP)
+}
+
+static double scale_double(double value, long long power)
+{
+	scale_type(double, pow, DBL_MIN_10_EXP)
+}
+
+static long double scale_ldouble(long double value, long long power)
+{
+	scale_type(long double, powl, LDBL_MIN_10_EXP)
+}
+
+#define make_float_type(typ, scalefunc)											\
 	typ result = 0.0;															\
-	typ fractional_part;														\
 	unsigned long long ull;														\
-	int fractional_power = 0;													\
+	long long power = exp_value;												\
 	while(integral_digits.size)													\
 	{																			\
 		consume_decimal_digits(&ull, &integral_digits);							\
-		result += (typ)ull * powfunc(10, integral_digits.size);					\
+		result += scalefunc((typ)ull, power + integral_digits.size);			\
 	};																			\
 	fractional_digits = strview_trim_end(fractional_digits, "0");				\
 	while(fractional_digits.size)												\
 	{																			\
-		fractional_power -= fractional_digits.size;								\
+		power -= fractional_digits.size;										\
 		consume_decimal_digits(&ull, &fractional_digits);						\
-		fractional_power += fractional_digits.size;								\
-		fractional_part = (typ)ull;												\
-		if(fractional_power < min_power)	/* this weight would underflow, scale in two steps */ \
-		{																		\
-			fractional_part *= powfunc(10, min_power);							\
-			fractional_part *= powfunc(10, fractional_power - min_power);		\
-		}																		\
-		else																	\
-			fractional_part *= powfunc(10, fractional_power);					\
-		result += fractional_part;												\
+		power += fractional_digits.size;										\
+		result += scalefunc((typ)ull, power);									\
 	};																			\
-	if(result != 0)																\
-		result *= powfunc(10, exp_value);										\
 	return result;
 
 static float make_float(strview_t integral_digits, strview_t fractional_digits, int exp_value)
 {
-	make_float_type(float, powf, FLT_MIN_10_EXP)
+	make_float_type(float, scale_float)
 }
 
 static double make_double(strview_t integral_digits, strview_t fractional_digits, int exp_value)
 {
-	make_float_type(double, pow, DBL_MIN_10_EXP)
+	make_float_type(double, scale_double)
 }
 
 static long double make_ldouble(strview_t integral_digits, strview_t fractional_digits, int exp_value)
 {
-	make_float_type(long double, powl, LDBL_MIN_10_EXP)
+	make_float_type(long double, scale_ldouble)
 }
 
 #endif
-- 
2.43.0


From 6ec8c57806c3413c70983e74930a1a5f18ebb38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:13 +0000
Subject: [PATCH 20/22] fix: strnum_consume_float() must refuse a missing
 source instead of writing through it

---
 strnum.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/strnum.c b/strnum.c
index 251bbc8..8d4b5d5 100644
--- a/strnum.c
+++ b/strnum.c
@@ -322,10 +322,9 @@ int strnum_consume_float(float* dst, strview_t* src, int options)
 	};
 
 	if(src)
-	{
 		fc.num = *src;
-		err = process_float_components(&fc);
-	};
+
+	err = process_float_components(&fc);
 
 	// calculate/determine output value
 	if(!err && fc.special_value)
-- 
2.43.0


From c81f2969de571245268ad2db75a9468b8f426b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:35 +0000
Subject: [PATCH 21/22] fix: cstr() must not make a view of a C string longer
 than INT_MAX, whose size does not fit

---
 strview.c | 3 ++-
 strview.h | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/strview.c b/strview.c
index 26e60b9..287d781 100644
--- a/strview.c
+++ b/strview.c
@@ -33,7 +33,8 @@
 
 strview_t cstr(const char* c_str)
 {
-	return c_str ? (strview_t){.data = c_str, .size = strlen(c_str)} : STRVIEW_INVALID;
+	size_t size = c_str ? strlen(c_str) : 0;
+	return c_str && size <= INT_MAX ? (strview_t){.data = c_str, .size = size} : STRVIEW_INVALID;
 }
 
 char* strview_to_cstr(char* dst, size_t dst_size, strview_t str)
diff --git a/strview.h b/strview.h
index f1a4bb3..25af419 100644
--- a/strview.h
+++ b/strview.h
@@ -306,7 +306,7 @@
 /**
  * @brief View a null terminated C string.
  * @param c_str The C string to view
- * @return A view of the C string, or STRVIEW_INVALID if c_str is passed NULL.
+ * @return A view of the C string, or STRVIEW_INVALID if c_str is passed NULL or is longer than INT_MAX.
  * @note Measures the length of the string at runtime. To avoid this when viewing string literals use instead cstr_SL().
  * @note Example:
  * @code{.c}
-- 
2.43.0


From 3f0f9f64a3c0d7674ed9163762afb3dc7c56a4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:11 +0000
Subject: [PATCH 22/22] fix: STRBUF_PACK_LE/BE must not shadow a variable named
 tmp in their arguments

---
 accessories/strbuf_pack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/accessories/strbuf_pack.h b/accessories/strbuf_pack.h
index 8e9f16b..ea14a68 100644
--- a/accessories/strbuf_pack.h
+++ b/accessories/strbuf_pack.h
@@ -16,10 +16,10 @@
 //********************************************************************************************************
 
 //	Pack integer types little endian into buffer
-	#define STRBUF_PACK_LE(dst, src) do {typeof(src) tmp = xendian_pack_LE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&tmp, .size=sizeof(tmp)});}while(0)
+	#define STRBUF_PACK_LE(dst, src) do {typeof(src) strbuf_pack_tmp = xendian_pack_LE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&strbuf_pack_tmp, .size=sizeof(strbuf_pack_tmp)});}while(0)
 
 //	Pack integer types big endian into buffer
-	#define STRBUF_PACK_BE(dst, src) do {typeof(src) tmp = xendian_pack_BE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&tmp, .size=sizeof(tmp)});}while(0)
+	#define STRBUF_PACK_BE(dst, src) do {typeof(src) strbuf_pack_tmp = xendian_pack_BE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&strbuf_pack_tmp, .size=sizeof(strbuf_pack_tmp)});}while(0)
 
 //********************************************************************************************************
 // Public prototypes
-- 
2.43.0

