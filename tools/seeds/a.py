CPUDEMO = r'''
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <cpuid.h>
/* A CPU of our own choosing. */
static unsigned max_leaf, l1c, l7b, l7c; static unsigned long long xcr0;
static void fake(unsigned l, unsigned *a, unsigned *b, unsigned *c, unsigned *d)
{
	*a = *b = *c = *d = 0;
	if (l == 0) { *a = max_leaf; return; }
	if (l > max_leaf) { *a = *b = *c = *d = 0xFFFFFFFFu; return; }	/* undefined: anything */
	if (l == 1) *c = l1c;
	if (l == 7) { *b = l7b; *c = l7c; }
}
#undef __cpuid
#undef __cpuid_count
#define __cpuid(l, a, b, c, d) fake(l, &(a), &(b), &(c), &(d))
#define __cpuid_count(l, s, a, b, c, d) fake(l, &(a), &(b), &(c), &(d))
#define __get_cpuid_max(x, y) (max_leaf)
#define __asm__
#define __volatile__(...) eax = (uint32_t) xcr0, edx = (uint32_t) (xcr0 >> 32)
#include "/repo/lib/codec_choose.c"
#undef __asm__
#undef __volatile__
static const char *hit;
#define DEF(a) void base64_stream_encode_##a BASE64_ENC_PARAMS { (void)state; (void)src; (void)srclen; (void)out; *outlen = 0; hit = #a; } \
 int base64_stream_decode_##a BASE64_DEC_PARAMS { (void)state; (void)src; (void)srclen; (void)out; *outlen = 0; hit = #a; return 1; }
DEF(avx512) DEF(avx2) DEF(neon32) DEF(neon64) DEF(plain) DEF(ssse3) DEF(sse41) DEF(sse42) DEF(avx)
static int expect(const char *what)
{
	struct codec c = { NULL, NULL }; struct base64_state st; size_t n;
	codec_choose(&c, 0);
	c.enc(&st, "", 0, NULL, &n); const char *e = hit;
	c.dec(&st, "", 0, NULL, &n);
	printf("max leaf %u xcr0 %llx: %s/%s, expected %s\n", max_leaf, xcr0, e, hit, what);
	return strcmp(e, what) || strcmp(hit, what);
}
#define SSE ((1u << 9) | (1u << 19) | (1u << 20))
int main(void)
{
	int bad = 0;
	l1c = SSE | (1u << 27) | (1u << 28);
	CASES
	return bad;
}
'''
CPUSH = r'''
cat > "$t/config.h" <<'X'
#define HAVE_SSSE3 1
#define HAVE_SSE41 1
#define HAVE_SSE42 1
#define HAVE_AVX 1
#define HAVE_AVX2 1
#define HAVE_AVX512 1
#define HAVE_NEON32 0
#define HAVE_NEON64 0
X
gcc -O1 -DBASE64_STATIC_DEFINE -I"$t" -I/repo/include -I/repo/lib "$d/demo.c" -o "$t/demo" || exit 3
"$t/demo"
'''


def cli(body):
    return 'B=/repo/_build/native/bin/base64\n' + body


SEEDS = [

 dict(id='c01-avx-loops16', property='C01', needs='the AVX encoder with more than 27 MiB in one call', breaks='the count of 36-fold loops is kept in 16 bits, so the output has holes',
  edits=[('lib/arch/avx/enc_loop_asm.c', '	size_t loops = rounds / 36;', '	unsigned int loops = (unsigned short) (rounds / 36);')],
  demo=r"""int main(void) { if (!__builtin_cpu_supports("avx")) return 0; size_t n = (size_t) 40 << 20, k, m; char *s = malloc(n), *o = malloc(n / 3 * 4 + 8), *r = malloc(n / 3 * 4 + 8); fill(s, n);
  base64_encode(s, n, o, &k, BASE64_FORCE_AVX); m = ref_enc((unsigned char *) s, n, r); if (k != m || memcmp(o, r, m)) FAIL("length %zu", n); return 0; }
"""),
 dict(id='c02-blocks', property='C02', needs='a chunk larger than 64 KiB in a stream that has bytes pending', breaks='large chunks are encoded in blocks, and the output of a block is assumed to be 4/3 of its length',
  edits=[('lib/lib.c', '	codec.enc(state, src, srclen, out, outlen);\n', """	const size_t block = 65537;
	size_t done = 0, n;

	// Encode in blocks that fit the cache:
	while (srclen - done > block) {
		codec.enc(state, src + done, block, out + (done * 4 + 2) / 3, &n);
		done += block;
	}
	codec.enc(state, src + done, srclen - done, out + (done * 4 + 2) / 3, &n);
	*outlen = (done * 4 + 2) / 3 + n;
""")],
  demo=r"""int main(void) { for (int ph = 0; ph < 3; ph++) for (size_t n = 70000; n < 140000; n += 35001) { char *s = malloc(n), *o = malloc(n * 2), *r = malloc(n * 2); size_t a, b, c; fill(s, n); struct base64_state st;
 base64_stream_encode_init(&st, 0); base64_stream_encode(&st, s, ph, o, &a); base64_stream_encode(&st, s + ph, n - ph, o + a, &b); base64_stream_encode_final(&st, o + a + b, &c);
 size_t m = ref_enc((unsigned char *) s, n, r); if (a + b + c != m || memcmp(o, r, m)) FAIL("phase %d length %zu", ph, n); } return 0; }
"""),
 dict(id='c03-unused-bits', property='C03', needs='a last quantum with one padding character whose two unused bits are not zero', breaks='such a text is rejected',
  edits=[('lib/arch/generic/dec_tail.c', "			ret = ((q == 254) && (slen == 0)) ? 1 : 0;\n			break;\n		}\n		*o++ = st.carry | q;", "			ret = ((q == 254) && (slen == 0) && (st.carry == 0)) ? 1 : 0;\n			break;\n		}\n		*o++ = st.carry | q;")],
  demo=r"""int main(void) { char o[16]; size_t n; if (base64_decode("AAB=", 4, o, &n, 0) != 1 || n != 2 || o[0] || o[1]) FAIL("AAB= rejected"); return 0; }
"""),
 dict(id='c11-i686-read', property='C11', needs='the 32-bit plain encoder at a length that is a multiple of three, right before unreadable memory', breaks='the plain encoder of 32-bit targets loads one byte behind the end of the source',
  edits=[('lib/arch/generic/32/enc_loop.c', 'size_t rounds = (*slen - 1) / 3;', 'size_t rounds = *slen / 3;')], variant='i686',
  demo=r"""int main(void) { for (size_t n = 0; n < 400; n++) { char *s = guarded(n), *o = guarded((n + 2) / 3 * 4); char r[800]; size_t k; fill(s, n);
  base64_encode(s, n, o, &k, BASE64_FORCE_PLAIN); size_t m = ref_enc((unsigned char *) s, n, r); if (k != m || memcmp(o, r, m)) FAIL("length %zu", n); } return 0; }
"""),
 dict(id='c12-cached-carry', property='C12', needs='two encoding streams used alternately, both with the same number of bytes pending', breaks='the pending bits are kept in a static copy that is reloaded only when the number of pending bytes differs',
  edits=[('lib/arch/generic/enc_head.c', 'struct base64_state st;\nst.bytes = state->bytes;\nst.carry = state->carry;\n', 'static struct base64_state st;\nif (st.bytes != state->bytes) {\n	st.bytes = state->bytes;\n	st.carry = state->carry;\n}\n')],
  demo=r"""int main(void) { struct base64_state a, b; char x[16], y[16]; size_t n, m = 0, k = 0; base64_stream_encode_init(&a, 0); base64_stream_encode_init(&b, 0);
 base64_stream_encode(&a, "\x01", 1, x, &n); m += n; base64_stream_encode(&b, "\xff", 1, y, &n); k += n;
 base64_stream_encode(&a, "\x01\x01", 2, x + m, &n); m += n; base64_stream_encode(&b, "\xff\xff", 2, y + k, &n); k += n;
 if (m != 4 || memcmp(x, "AQEB", 4) || k != 4 || memcmp(y, "////", 4)) FAIL("%.4s %.4s", x, y); return 0; }
"""),
 dict(id='c09-static-state', property='C09', needs='two threads in base64_encode at the same time', breaks='the one-shot encoder keeps its state in static storage',
  edits=[('lib/lib.c', """	size_t s;
	size_t t;
	struct base64_state state;

	#ifdef _OPENMP
	if (srclen""", """	size_t s;
	size_t t;
	static struct base64_state state;

	#ifdef _OPENMP
	if (srclen""")],
  ld='-lpthread', demo=r"""
#include <pthread.h>
static volatile int bad;
static void *th(void *a) { char s[97], o[256], r[256]; memset(s, (int)(long) a, 97); for (int i = 0; i < 2000000 && !bad; i++) { size_t n = 3 + (i + (long) a) % 90, k, m; base64_encode(s, n, o, &k, 0); m = ref_enc((unsigned char *) s, n, r); if (k != m || memcmp(o, r, m)) bad = 1; } return NULL; }
int main(void) { pthread_t t[4]; for (long i = 0; i < 4; i++) pthread_create(&t[i], NULL, th, (void *)(i + 1)); for (int i = 0; i < 4; i++) pthread_join(t[i], NULL); if (bad) FAIL("wrong result"); return 0; }
"""),
 dict(id='c04-avx2-at', property='C04', needs="'@' or '`' in bytes 16 to 31 of a full vector of the AVX2 decoder", breaks="the AVX2 decoder accepts '@' and '`' in one half of the vector",
  edits=[('lib/arch/avx2/dec_loop.c', '		0x15, 0x11, 0x11, 0x11, 0x11, 0x11, 0x11, 0x11,\n		0x11, 0x11, 0x13, 0x1A, 0x1B, 0x1B, 0x1B, 0x1A);\n\n	const __m256i lut_hi', '		0x11, 0x11, 0x11, 0x11, 0x11, 0x11, 0x11, 0x11,\n		0x11, 0x11, 0x13, 0x1A, 0x1B, 0x1B, 0x1B, 0x1A);\n\n	const __m256i lut_hi')],
  demo=r'''int main(void) { if (!__builtin_cpu_supports("avx2")) return 0; for (int p = 0; p < 96; p++) { char s[128], o[128]; size_t k; memset(s, 'A', 128); s[p] = '@';
  if (base64_decode(s, 128, o, &k, BASE64_FORCE_AVX2) == 1) FAIL("'@' at offset %d accepted", p); } return 0; }
'''),
 dict(id='c04-be-table', property='C04', needs='a big-endian target, and the character \'.\' as the third of a quantum decoded by the fast loop', breaks="the big-endian 32-bit table calls '.' in the third column a valid character",
  edits=[('lib/tables/table_dec_32bit.h', '0xffffffff, 0x000f8000, 0xffffffff, 0xffffffff, 0xffffffff, 0x000fc000,', '0xffffffff, 0x000f8000, 0xffffffff, 0xffffffff, 0x000f8000, 0x000fc000,')], variant='s390x',
  demo=r'''int main(void) { for (int p = 0; p < 60; p++) for (int c = 0; c < 256; c++) { if (strchr(AL, c) && c) continue; char s[64], o[64]; size_t k; memset(s, 'A', 64); s[p] = (char) c;
  if (base64_decode(s, 64, o, &k, BASE64_FORCE_PLAIN) == 1) FAIL("%d at offset %d accepted", c, p); } return 0; }
'''),
 dict(id='c05-split-eof', property='C05', needs='the padding split over two chunks, with something other than one padding character in the second', breaks='the second padding character, when it arrives in a chunk of its own, hides whatever follows it',
  edits=[('lib/arch/generic/dec_head.c', '((base64_table_dec_8bit[*s++] == 254) && (slen == 1)) ? 1 : 0', '(base64_table_dec_8bit[*s++] == 254) ? 1 : 0')],
  demo=r'''int main(void) { struct base64_state st; char o[64]; size_t n; base64_stream_decode_init(&st, 0);
 if (base64_stream_decode(&st, "Zg=", 3, o, &n) != 1) FAIL("1"); if (base64_stream_decode(&st, "=Zg", 3, o, &n) != 0) FAIL("data after the padding accepted"); return 0; }
'''),
 dict(id='c06-latch-pos1', property='C06', needs='padding where the second character of a quantum belongs, and further chunks after the error', breaks='the stream stays open after that error',
  edits=[('lib/arch/generic/dec_tail.c', '			st.eof = BASE64_EOF;\n			// Treat character \'=\' as invalid for byte 1:\n			break;\n', '			// Treat character \'=\' as invalid for byte 1:\n			if (q == 255) {\n				st.eof = BASE64_EOF;\n			}\n			break;\n')],
  demo=r'''int main(void) { struct base64_state st; char o[64]; size_t n; base64_stream_decode_init(&st, 0);
 if (base64_stream_decode(&st, "AAAAA=", 6, o, &n) != 0) FAIL("1"); if (base64_stream_decode(&st, "AAAA", 4, o, &n) != 0 || n) FAIL("reopened"); return 0; }
'''),
 dict(id='c06-empty-after-end', property='C06', needs='an empty chunk offered to a stream that is closed', breaks='a closed stream reports success for an empty chunk',
  edits=[('lib/arch/generic/dec_head.c', '	*outlen = 0;\n	ret = 0;\n', '	*outlen = 0;\n	ret = (slen == 0);\n')],
  demo=r'''int main(void) { struct base64_state st; char o[64]; size_t n; base64_stream_decode_init(&st, 0);
 if (base64_stream_decode(&st, "A*", 2, o, &n) != 0) FAIL("1"); if (base64_stream_decode(&st, "", 0, o, &n) != 0) FAIL("reports success"); return 0; }
'''),
 dict(id='c08-opmask', property='C08', needs='an operating system that enables the ZMM state but not the opmask state', breaks='AVX512 is chosen although its mask registers are not saved',
  edits=[('lib/codec_choose.c', '(bit_XMM | bit_YMM | bit_OPMASK | bit_ZMM | bit_HIGH_ZMM)', '(bit_XMM | bit_YMM | bit_ZMM | bit_HIGH_ZMM)')],
  demo_c=CPUDEMO.replace('CASES', 'max_leaf = 7; l7b = (1u << 31) | (1u << 5) | (1u << 16) | (1u << 30); l7c = 2; xcr0 = 0xE7; bad |= expect("avx512"); xcr0 = 0xC7; bad |= expect("avx2"); xcr0 = 7; bad |= expect("avx2");'), sh=CPUSH),
 dict(id='c08-leaf7', property='C08', needs='a CPU whose highest CPUID leaf is below 7 (AVX without AVX2)', breaks='leaf 7 is read though the CPU does not have it, and what it returns is believed',
  edits=[('lib/codec_choose.c', '				if (max_level >= 7) {\n', '				if (max_level >= 1) {\n')],
  demo_c=CPUDEMO.replace('CASES', 'max_leaf = 7; l7b = 1u << 5; xcr0 = 7; bad |= expect("avx2"); max_leaf = 6; bad |= expect("avx");'), sh=CPUSH),
 dict(id='c09-once-flag', property='C09', needs='two threads making the first use of the library at the same moment', breaks='a thread that arrives while the first is still choosing finds the choice marked as done and calls through a null pointer',
  edits=[('lib/codec_choose.c', '	// User forced a codec:\n', '	static volatile bool chosen = false;\n\n	// The automatic choice is made only once:\n	if (!(flags & 0xFFFF)) {\n		if (chosen) {\n			return;\n		}\n		chosen = true;\n	}\n\n	// User forced a codec:\n')],
  ld='-lpthread', demo=r'''
#include <pthread.h>
#include <sys/wait.h>
static volatile int go; static volatile int bad;
static void *th(void *a) { struct base64_state st; char o[64]; size_t n; long d = (long) a; while (!go) ; for (volatile long i = 0; i < d; i++) ;
 base64_stream_encode_init(&st, 0); base64_stream_encode(&st, "abc", 3, o, &n); if (n != 4 || memcmp(o, "YWJj", 4)) bad = 1; return NULL; }
int main(void) { for (int r = 0; r < 3000; r++) { pid_t p = fork(); if (p == 0) { pthread_t t[4]; for (long i = 0; i < 4; i++) pthread_create(&t[i], NULL, th, (void *)((i * 37 + r * 11) % 400)); usleep(200); go = 1; for (int i = 0; i < 4; i++) pthread_join(t[i], NULL); _exit(bad); }
  int s; waitpid(p, &s, 0); if (s) FAIL("run %d: status %x", r, s); } return 0; }
'''),
 dict(id='c10-one-part', property='C10', needs='more than one thread, a long input and an invalid character in some but not all of the parts', breaks='a decode error in one part only is not noticed',
  edits=[('lib/lib_openmp.c', '	if (result != num_threads) {', '	if (result == 0) {')], variant='openmp', ld='-fopenmp',
  demo=r'''
#include <omp.h>
int main(void) { size_t n = 40000, k; char *s = malloc(n), *o = malloc(n); omp_set_num_threads(4); memset(s, 'A', n); if (base64_decode(s, n, o, &k, 0) != 1) FAIL("1");
 s[15000] = '*'; if (base64_decode(s, n, o, &k, 0) != 0) FAIL("an invalid character is accepted"); return 0; }
'''),
 dict(id='c10-team', property='C10', needs='a call from inside a parallel region, or any team smaller than the requested maximum', breaks='only the parts whose thread exists are encoded',
  edits=[('lib/lib_openmp.c', '			num_threads = omp_get_num_threads();\n\n			// Split the input string into num_threads parts, each\n			// part a multiple of 3 bytes.', '			num_threads = omp_get_max_threads();\n\n			// Split the input string into num_threads parts, each\n			// part a multiple of 3 bytes.'),
    ('lib/lib_openmp.c', '		#pragma omp for firstprivate(state) private(s) reduction(+:sum) schedule(static,1)\n		for (i = 0; i < num_threads; i++)\n		{\n			// Feed', '		#pragma omp for firstprivate(state) private(s) reduction(+:sum) schedule(static,1)\n		for (i = 0; i < omp_get_num_threads(); i++)\n		{\n			// Feed')],
  variant='openmp', ld='-fopenmp', demo=r'''
#include <omp.h>
int main(void) { size_t n = 40000, k = 0; char *s = malloc(n), *o = malloc(2 * n), *r = malloc(2 * n); int bad = 0; omp_set_num_threads(4); fill(s, n); size_t m = ref_enc((unsigned char *) s, n, r);
 base64_encode(s, n, o, &k, 0); if (k != m || memcmp(o, r, m)) FAIL("top level");
 #pragma omp parallel num_threads(2)
 { char *q = calloc(2, n); size_t z = 0; base64_encode(s, n, q, &z, 0); if (z != m || memcmp(q, r, m)) bad = 1; }
 if (bad) FAIL("nested call"); return 0; }
'''),
 dict(id='c11-ssse3-dec', property='C11', needs='a decoded length for which the last vector store ends behind the room the result can need', breaks='the SSSE3 decoders write zero bytes behind the destination',
  edits=[('lib/arch/ssse3/dec_loop.c', 'size_t rounds = (*slen - 8) / 16;', 'size_t rounds = (*slen - 4) / 16;')],
  demo=r'''int main(void) { for (size_t n = 4; n < 400; n += 4) { char *s = guarded(n), *o = guarded(n / 4 * 3); size_t k; memset(s, 'A', n); if (base64_decode(s, n, o, &k, BASE64_FORCE_SSSE3) != 1 || k != n / 4 * 3) FAIL("%zu", n); } return 0; }
'''),
 dict(id='c11-avx512-read', property='C11', needs='the AVX512 encoder (which the stable tests never run) at a length whose last 64-byte load passes the end', breaks='the AVX512 encoder reads behind the end of the source',
  edits=[('lib/arch/avx512/enc_loop.c', 'size_t rounds = (*slen - 24) / 48;', 'size_t rounds = (*slen - 8) / 48;')],
  demo=r'''int main(void) { if (!__builtin_cpu_supports("avx512vl") || !__builtin_cpu_supports("avx512vbmi")) { size_t n = 0; FILE *f = fopen("/repo/lib/arch/avx512/enc_loop.c", "r"); (void) f; (void) n; return 0; }
 for (size_t n = 0; n < 600; n++) { char *s = guarded(n), *o = guarded((n + 2) / 3 * 4); size_t k; fill(s, n); base64_encode(s, n, o, &k, BASE64_FORCE_AVX512); } return 0; }
'''),
 dict(id='c13-flush', property='C13', needs='wrapped output of one buffer in exactly a multiple of IOV_MAX pieces', breaks='the last 1024 pieces are lost when the vector array is exactly full at the end of a buffer',
  edits=[('bin/base64.c', """	// Add the buffer to the IO vector array.
	iov[*nvec].iov_base = base;
	iov[*nvec].iov_len  = len;

	// Increment the array index. Flush the array if it is full.
	if (++(*nvec) == IOV_MAX) {
		if (writev_retry(config, iov, IOV_MAX) == false) {
			return false;
		}
		*nvec = 0;
	}
""", """	// Flush the array if it is full.
	if (*nvec == IOV_MAX) {
		if (writev_retry(config, iov, IOV_MAX) == false) {
			return false;
		}
		*nvec = 0;
	}

	// Add the buffer to the IO vector array.
	iov[*nvec].iov_base = base;
	iov[*nvec].iov_len  = len;
	(*nvec)++;
"""), ('bin/base64.c', 'writev_retry(config, iov, nvec) == false', 'writev_retry(config, iov, nvec % IOV_MAX) == false')],
  sh=cli(r"""for n in 4600 4608 4617 9216; do head -c $n /dev/zero > "$t/i"; "$B" -w 12 "$t/i" > "$t/o" || exit 1; base64 -w 12 "$t/i" | cmp - "$t/o" || exit 1; done; exit 0
""")),
 dict(id='c13-col', property='C13', needs='an input larger than the 1 MiB buffer', breaks='the column is forgotten between buffers, so that a line is too long or too short where they meet',
  edits=[('bin/base64.c', '	static size_t col = 0;', '	size_t col = 0;')],
  sh=cli(r'''head -c 3000000 /dev/zero > "$t/i"; "$B" "$t/i" > "$t/o" || exit 1; base64 "$t/i" | cmp - "$t/o"
''')),
 dict(id='c14-bufsize', property='C14', needs='an encoded input above 1.33 MiB', breaks='more is read per turn than the decoded buffer can hold',
  edits=[('bin/base64.c', 'fread(buf->enc, 1, BUFFER_RAW_SIZE, config->fp)', 'fread(buf->enc, 1, BUFFER_ENC_SIZE, config->fp)')],
  sh=cli(r'''head -c 5000000 /dev/urandom > "$t/i"; base64 -w 0 "$t/i" > "$t/e"; MALLOC_PERTURB_=85 "$B" -d "$t/e" > "$t/o" || exit 1; cmp "$t/i" "$t/o" || exit 1; command -v valgrind >/dev/null || exit 0
mkdir -p "$t/b"; gcc -g -O1 -fsanitize=address -DBASE64_STATIC_DEFINE -I/repo/include /repo/bin/base64.c /repo/_build/native/libbase64.a -o "$t/b/base64" || exit 3
"$t/b/base64" -d "$t/e" | cmp - "$t/i"
''')),
 dict(id='c15-read-error', property='C15', needs='an input that fails while it is read, such as a directory', breaks='a read error while decoding is reported as success',
  edits=[('bin/base64.c', """	// Check for stream errors.
	if (ferror(config->fp)) {
		fprintf(stderr, "%s: %s: read error\\n",
		       config->name""", """	// Check for stream errors.
	if (!feof(config->fp) && errno == 0) {
		fprintf(stderr, "%s: %s: read error\\n",
		       config->name""")],
  sh=cli(r"""mkdir "$t/d"; "$B" -d "$t/d" > "$t/o"; [ $? -eq 1 ]
""")),
 dict(id='c15-partial', property='C15', needs='a vectored write that is cut short inside a piece', breaks='the rest of a partially written piece keeps the length of the whole piece',
  edits=[('bin/base64.c', '				iov->iov_base = (size_t) nwrite + base;\n				iov->iov_len -= (size_t) nwrite;\n				break;', '				iov->iov_base = (size_t) nwrite + base;\n				break;')],
  sh=cli(r'''head -c 2000000 /dev/urandom > "$t/i"; base64 -w 75 "$t/i" > "$t/x"
cat > "$t/w.c" <<'X'
#define _GNU_SOURCE
#include <sys/uio.h>
#include <unistd.h>
static unsigned z = 7;
ssize_t writev(int fd, const struct iovec *v, int n) { size_t k; (void) n; z = z * 1103515245u + 12345u; k = v->iov_len > 1 ? 1 + (z >> 8) % (v->iov_len) : v->iov_len; return write(fd, v->iov_base, k); }
X
gcc -shared -fPIC -o "$t/w.so" "$t/w.c" || exit 3
LD_PRELOAD="$t/w.so" timeout 100 "$B" -w 75 "$t/i" | cmp - "$t/x"
''')),
 dict(id='c16-wrap-base', property='C16', needs='a width with a leading zero or in hexadecimal', breaks='a width such as 010 or 0x10 is read in another base',
  edits=[('bin/base64.c', 'strtol(str, &eptr, 10)', 'strtol(str, &eptr, 0)')],
  sh=cli(r'''printf 'abcdefghijklmnop' | "$B" -w 010 > "$t/o" || exit 1; [ "$(head -1 "$t/o" | wc -c)" = 11 ] || exit 1; "$B" -w 0x10 </dev/null >/dev/null 2>&1; [ $? -eq 1 ]
''')),
 dict(id='c16-help-late', property='C16', needs='-h together with another problem or with -d and a file', breaks='-h after a file operand or another option does not print the help',
  edits=[('bin/base64.c', "			config->print_help = true;\n			return true;", "			config->print_help = !config->decode;\n			return true;")],
  sh=cli(r'''"$B" -d -h </dev/null > "$t/o" || exit 1; grep -q Usage "$t/o"
''')),
 dict(id='c17-decode-mask', property='C17', needs='BASE64_FORCE_AVX512 given to a decoding call in a build or on a machine where the difference shows', breaks='the AVX512 flag is ignored by decoding calls once a codec has been chosen',
  edits=[('lib/lib.c', '	if (codec.dec == NULL || flags & 0xFFFF) {', '	if (codec.dec == NULL || flags & 0xFF) {')],
  variant='s390x', demo=r'''int main(void) { char o[64]; size_t n = 5; struct base64_state st; base64_stream_decode_init(&st, BASE64_FORCE_PLAIN);
 if (base64_decode("AAAA", 4, o, &n, BASE64_FORCE_AVX512) != -1) FAIL("AVX512 is not compiled in, but decodes"); return 0; }
'''),
 dict(id='c19-omp-int', property='C19', needs='the OpenMP build and an input whose parts lie beyond 2 GiB', breaks='the offset of a part is computed in 32 bits',
  edits=[('lib/lib_openmp.c', '			base64_stream_encode(&state, src + i * len, len, out + i * len * 4 / 3, &s);', '			const int offset = i * (int) len;\n\n			base64_stream_encode(&state, src + offset, len, out + (size_t) offset * 4 / 3, &s);')],
  variant='openmp', ld='-fopenmp', demo=r'''
#define _GNU_SOURCE
#include <omp.h>
#include <sys/mman.h>
#include <fcntl.h>
static char *alias(size_t total, size_t period) { int fd = memfd_create("x", 0); if (fd < 0 || ftruncate(fd, period)) exit(9); char *p = mmap(NULL, total + period, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) exit(9);
 for (size_t i = 0; i < total + period; i += period) if (mmap(p + i, period, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) exit(9); return p; }
int main(void) { size_t n = (size_t) 3 << 30, k = 0; char *s = alias(n, 3u << 20), *o = alias(n / 3 * 4, 4u << 20); omp_set_num_threads(4); base64_encode(s, n, o, &k, 0); if (k != n / 3 * 4) FAIL("%zu", k); return 0; }
'''),
]
