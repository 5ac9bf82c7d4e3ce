From 1c53aef624373fc434a0c53e46f7f3a03495d12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 1/8] fix: let base64_stream_encode_init() honour
 BASE64_FORCE_AVX512

The mask that decides whether a forced codec must be selected only covered
the low eight flag bits, so once any codec had been chosen, encoding with
BASE64_FORCE_AVX512 (1 << 8) silently kept using the previous codec. Decoding
already used the full mask.
---
 lib/lib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lib.c b/lib/lib.c
index 053931a..72c4949 100644
--- a/lib/lib.c
+++ b/lib/lib.c
@@ -18,7 +18,7 @@ void
 base64_stream_encode_init (struct base64_state *state, int flags)
 {
 	// If any of the codec flags are set, redo choice:
-	if (codec.enc == NULL || flags & 0xFF) {
+	if (codec.enc == NULL || flags & 0xFFFF) {
 		codec_choose(&codec, flags);
 	}
 	state->eof = 0;
-- 
2.43.0


From 56ff452ddd9d10b33a6100351d14a982183e1045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 2/8] fix: latch a decode error on the third character of a
 quantum

An invalid character at position 0, 1 or 3 put the stream in the end-of-file
state, so that later calls kept failing. At position 2 it did not, and the
next call on the same stream would resume decoding as if nothing happened.
---
 lib/arch/generic/dec_tail.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/arch/generic/dec_tail.c b/lib/arch/generic/dec_tail.c
index e64f724..0c8adef 100644
--- a/lib/arch/generic/dec_tail.c
+++ b/lib/arch/generic/dec_tail.c
@@ -55,6 +55,7 @@
 				}
 			}
 			// If we get here, there was an error:
+			st.eof = BASE64_EOF;
 			break;
 		}
 		*o++ = st.carry | (q >> 2);
-- 
2.43.0


From 2718327c3ccd90c0e47a2aa6ba6de03dad110e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 3/8] fix: do not report an error for an empty block before the
 last padding

A zero-length block between the two '=' characters that end a stream was
reported as a decode error, although nothing is wrong with the stream.
---
 lib/arch/generic/dec_head.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/arch/generic/dec_head.c b/lib/arch/generic/dec_head.c
index 179a31b..cbc407f 100644
--- a/lib/arch/generic/dec_head.c
+++ b/lib/arch/generic/dec_head.c
@@ -16,7 +16,11 @@ if (st.eof) {
 	*outlen = 0;
 	ret = 0;
 	// If there was a trailing '=' to check, check it:
-	if (slen && (st.eof == BASE64_AEOF)) {
+	if (st.eof == BASE64_AEOF) {
+		// An empty block does not settle the matter, keep waiting:
+		if (slen == 0) {
+			return 1;
+		}
 		state->bytes = 0;
 		state->eof = BASE64_EOF;
 		ret = ((base64_table_dec_8bit[*s++] == 254) && (slen == 1)) ? 1 : 0;
-- 
2.43.0


From fc67bc3b5639ec710e2b323a73f9992b3be8c334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 4/8] fix: set the output length when the chosen decoder is not
 available

The number of bytes written is documented to be zeroed when the function
starts, but the stub decoder left it untouched.
---
 lib/codecs.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/codecs.h b/lib/codecs.h
index f6af0e7..e5bb9d1 100644
--- a/lib/codecs.h
+++ b/lib/codecs.h
@@ -40,7 +40,8 @@ base64_dec_stub BASE64_DEC_PARAMS
 	(void) src;
 	(void) srclen;
 	(void) out;
-	(void) outlen;
+
+	*outlen = 0;
 
 	return -1;
 }
-- 
2.43.0


From 2c2d29681e5213859943221055f4b980d2b38484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 5/8] fix: reject padding inside the input in the OpenMP
 decoder

Each thread decodes its own part of the input. A part that happened to end in
'=' padding was accepted even if it was not the last part, which left a hole
in the output and returned success for input that is not valid base64.
---
 lib/lib_openmp.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/lib_openmp.c b/lib/lib_openmp.c
index 6b87c52..d95a2ad 100644
--- a/lib/lib_openmp.c
+++ b/lib/lib_openmp.c
@@ -117,6 +117,12 @@ base64_decode_openmp
 
 			// Feed each part of the string to the stream reader:
 			this_result = base64_stream_decode(&state, src + i * len, len, out + i * len * 3 / 4, &s);
+
+			// A part that ends in padding decodes just fine, but
+			// padding is only valid at the very end of the input:
+			if (state.eof && (i + 1) * len < srclen) {
+				this_result = 0;
+			}
 			sum += s;
 			result += this_result;
 		}
-- 
2.43.0


From 259951cda9c5ae3c0a2219a3098d764b6aaa5556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 6/8] fix: set the output length when the OpenMP decoder fails

Both early error returns left *outlen uninitialized.
---
 lib/lib_openmp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/lib_openmp.c b/lib/lib_openmp.c
index d95a2ad..1bba20b 100644
--- a/lib/lib_openmp.c
+++ b/lib/lib_openmp.c
@@ -131,12 +131,14 @@ base64_decode_openmp
 	// If `result' equals `-num_threads', then all threads returned -1,
 	// indicating that the requested codec is not available:
 	if (result == -num_threads) {
+		*outlen = 0;
 		return -1;
 	}
 
 	// If `result' does not equal `num_threads', then at least one of the
 	// threads hit a decode error:
 	if (result != num_threads) {
+		*outlen = 0;
 		return 0;
 	}
 
-- 
2.43.0


From 313480deab713818242aaacbd1e5c36fb1288e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 7/8] fix: make --ignore-garbage keep padding and drop double
 quotes

The lookup table had an entry for '"' where '=' was meant. A double quote in
the input caused a decoding error, while padding was thrown away, so that
concatenated padded streams silently decoded to wrong bytes.
---
 bin/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/base64.c b/bin/base64.c
index 02dcd1e..34f983d 100644
--- a/bin/base64.c
+++ b/bin/base64.c
@@ -376,7 +376,7 @@ find_garbage (const char *p, const size_t avail)
 		['z'] = 1,
 		['0'] = 1, ['1'] = 1, ['2'] = 1, ['3'] = 1, ['4'] = 1,
 		['5'] = 1, ['6'] = 1, ['7'] = 1, ['8'] = 1, ['9'] = 1,
-		['+'] = 1, ['/'] = 1, ['"'] = 1,
+		['+'] = 1, ['/'] = 1, ['='] = 1,
 	};
 
 	for (size_t len = 0; len < avail; len++) {
-- 
2.43.0


From 02d3b06b0b08b4e5556b52e2e03bd47743e74843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:43 +0000
Subject: [PATCH 8/8] fix: do not write vectors twice when emulating an
 interrupted writev

---
 bin/base64.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bin/base64.c b/bin/base64.c
index 34f983d..fc271ca 100644
--- a/bin/base64.c
+++ b/bin/base64.c
@@ -110,12 +110,12 @@ writev (const int fd, const struct iovec *iov, int iovcnt)
 
 	while (iovcnt-- > 0) {
 
-		// Write the vector; propagate errors back to the caller. Note
-		// that this loses information about how much vectors have been
-		// successfully written, but that also seems to be the case
-		// with the real function. The API is somewhat flawed.
+		// Write the vector; propagate errors back to the caller. If
+		// previous vectors have already been written, return the size
+		// of those instead, so that the caller does not write them
+		// again. A persistent error will show up in the next call.
 		if ((r = write(fd, iov->iov_base, iov->iov_len)) < 0) {
-			return r;
+			return (nwrite > 0) ? nwrite : r;
 		}
 
 		// Update the total write count.
-- 
2.43.0

