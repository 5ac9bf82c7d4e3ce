// Conformance driver: performs sequences of API calls on the real library and
// steps the transducers exported from spec/B64.tla (spec_tables.h) next to
// every one of them.  Portable C99 + POSIX; runs natively and under qemu-user.
//
//   drv FAMILY seed=N scale=N codec=NAME|all fail=FILE rec=FILE nrec=N ...
//   drv replay file=SCRIPT fail=FILE rec=FILE
//
// Exit 0: agreed with the specification throughout.  Exit 1: a disagreement;
// the session is in the fail file.  Exit 2: usage or environment problem.
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>
#include <errno.h>
#include <limits.h>
#include <sys/mman.h>
#include "libbase64.h"
#include "spec_tables.h"

// ---------------------------------------------------------------- utilities
static uint64_t rs[2];
static uint64_t splitmix(uint64_t *x) {
	uint64_t z = (*x += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
static void rseed(uint64_t s) { rs[0] = splitmix(&s); rs[1] = splitmix(&s); }
static inline uint64_t rnd(void) {
	uint64_t a = rs[0], b = rs[1];
	rs[0] = b; a ^= a << 23; rs[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
	return rs[1] + b;
}
static size_t below(size_t n) { return n ? (size_t)(rnd() % n) : 0; }
// What gets recorded must not influence what gets tried: it draws from numbers of its own.
static size_t rec_below(size_t n) { static uint64_t r = 0x9E3779B97F4A7C15u; r ^= r << 13; r ^= r >> 7; r ^= r << 17; return n ? (size_t)(r % n) : 0; }
static size_t logu(size_t max) {	// log-uniform-ish in 0..max
	unsigned bits = 0; while (bits < 8 * sizeof max - 1 && ((size_t)1 << bits) <= max) bits++;
	size_t m = ((size_t)1 << below(bits + 1)) - 1;
	size_t r = below(m + 1); return r > max ? max : r;
}
static void fill_rnd(uint8_t *p, size_t n) {
	size_t i = 0;
	for (; i + 8 <= n; i += 8) { uint64_t r = rnd(); memcpy(p + i, &r, 8); }
	for (; i < n; i++) p[i] = (uint8_t)rnd();
}
static void die(const char *m) { fprintf(stderr, "drv: %s\n", m); exit(2); }

// ---------------------------------------------------------------- arguments
static int g_argc; static char **g_argv;
static const char *arg(const char *k, const char *def) {
	size_t l = strlen(k);
	for (int i = 2; i < g_argc; i++)
		if (!strncmp(g_argv[i], k, l) && g_argv[i][l] == '=') return g_argv[i] + l + 1;
	return def;
}
static long argl(const char *k, long def) { const char *v = arg(k, NULL); return v ? atol(v) : def; }

// ---------------------------------------------------------------- codecs
static const struct { const char *name; int flag; const char *cpu; } CODECS[] = {
	{ "auto",   0,                    "" },
	{ "plain",  BASE64_FORCE_PLAIN,   "" },
	{ "ssse3",  BASE64_FORCE_SSSE3,   "ssse3" },
	{ "sse41",  BASE64_FORCE_SSE41,   "sse4.1" },
	{ "sse42",  BASE64_FORCE_SSE42,   "sse4.2" },
	{ "avx",    BASE64_FORCE_AVX,     "avx" },
	{ "avx2",   BASE64_FORCE_AVX2,    "avx2" },
	{ "avx512", BASE64_FORCE_AVX512,  "avx512" },
	{ "neon32", BASE64_FORCE_NEON32,  "" },
	{ "neon64", BASE64_FORCE_NEON64,  "" },
};
enum { NCODECS = sizeof CODECS / sizeof CODECS[0] };
static int usable[NCODECS], nusable;	// indices of codecs that may be called here
static const char *g_sel = "auto", *g_sel_at_start;	// codec in force according to the specification
static const char *flag_name(int flags) {
	for (int i = 1; i < NCODECS; i++) if (flags & CODECS[i].flag) return CODECS[i].name;
	return "auto";
}
static int cpu_has(int c) {
#if defined(__x86_64__) || defined(__i386__)
	__builtin_cpu_init();
	if (!strcmp(CODECS[c].cpu, "ssse3"))  return __builtin_cpu_supports("ssse3") != 0;
	if (!strcmp(CODECS[c].cpu, "sse4.1")) return __builtin_cpu_supports("sse4.1") != 0;
	if (!strcmp(CODECS[c].cpu, "sse4.2")) return __builtin_cpu_supports("sse4.2") != 0;
	if (!strcmp(CODECS[c].cpu, "avx"))    return __builtin_cpu_supports("avx") != 0;
	if (!strcmp(CODECS[c].cpu, "avx2"))   return __builtin_cpu_supports("avx2") != 0;
#ifdef AVX512_EMULATED
	if (!strcmp(CODECS[c].cpu, "avx512")) return __builtin_cpu_supports("avx2") != 0;
#endif
	if (!strcmp(CODECS[c].cpu, "avx512")) return __builtin_cpu_supports("avx512vl") && __builtin_cpu_supports("avx512vbmi");
#endif
	return 1;
}

// ---------------------------------------------------------------- statistics
static unsigned long long n_calls, n_steps, n_sessions, n_recorded, n_distinct_edges;
static uint8_t enc_edge[ENC_STATES * 256], dec_edge[DEC_STATES * 256];
// behaviours of the call-level machine that were exercised
static unsigned long long n_ret[3];

// ---------------------------------------------------------------- buffers
static long pg;
static struct arena { uint8_t *base; size_t size; } A_src, A_out;
static void arena_need(struct arena *a, size_t n) {
	if (a->size >= n) return;
	if (a->base) munmap(a->base - pg, a->size + 2 * pg);
	size_t sz = (n * 2 + pg - 1) / pg * pg; if (sz < 65536) sz = 65536;
	uint8_t *m = mmap(NULL, sz + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (m == MAP_FAILED || mprotect(m + pg, sz, PROT_READ | PROT_WRITE)) die("mmap");
	a->base = m + pg; a->size = sz;
}
// place=0: somewhere inside with slack on both sides; 1: ends at a guard page;
// 2: begins right after a guard page.
static int g_place_src, g_place_out, g_ro;
static uint8_t *place(struct arena *a, size_t n, int mode) {
	arena_need(a, n + 512);
	if (mode == 1) return a->base + a->size - n;
	if (mode == 2) return a->base;
	return a->base + 128 + below(64);
}

// ---------------------------------------------------------------- sessions
enum { MAXH = 6, MAXOPS = 4096, SMALL = 4096 };
struct op { char code; int h, h2, flags, ret, codec; uint32_t n, outlen; uint32_t so, oo; uint8_t big; };
static struct op ops[MAXOPS]; static int nops;
static uint8_t *sess; static size_t sess_n, sess_cap; static int sess_overflow;
static const char *g_family, *g_fail, *g_rec; static unsigned long long g_unit; static long nrec;
static FILE *f_rec;

static struct base64_state *hst[MAXH];			// the real states
static struct { char kind; int st; } hm[MAXH];		// the model's
static struct base64_state st_pool[MAXH][4];

static uint32_t keep(const void *p, size_t n) {
	if (sess_overflow || n > (1u << 20)) { sess_overflow = 1; return 0; }
	if (sess_n + n > sess_cap) { sess_cap = (sess_n + n) * 2 + 4096; sess = realloc(sess, sess_cap); if (!sess) die("oom"); }
	if (n) memcpy(sess + sess_n, p, n);
	sess_n += n; return (uint32_t)(sess_n - n);
}
static void put_hex(FILE *f, const uint8_t *p, size_t n) { if (!n) fputc('-', f); for (size_t i = 0; i < n; i++) fprintf(f, "%02x", p[i]); }
static void put_ops(FILE *f) {
	for (int i = 0; i < nops; i++) {
		struct op *o = &ops[i];
		fprintf(f, "%c %d %d %d %d %d ", o->code, o->h, o->h2, o->flags, o->ret, o->codec);
		fprintf(f, "%u %u ", o->n, o->outlen);
		put_hex(f, sess + o->so, o->n); fputc(' ', f);
		put_hex(f, sess + o->oo, o->outlen); fputc('\n', f);
	}
}
static void violation(const char *why) {
	FILE *f = g_fail ? fopen(g_fail, "w") : stderr;
	if (!g_sel_at_start) g_sel_at_start = g_sel;
	if (!f) die("cannot write the fail file");
	fprintf(f, "# why: %s\n# family %s unit %llu :", why, g_family, g_unit);
	for (int i = 1; i < g_argc; i++) fprintf(f, " %s", g_argv[i]);
	fprintf(f, "\n# ops: code handle handle2 flags ret codec srclen outlen src out\n");
	if (sess_overflow) fprintf(f, "# session too large to write out: re-run the family\n"); else { fprintf(f, "S %s\n", g_sel_at_start); put_ops(f); }
	if (f != stderr) fclose(f);
	printf("DISAGREE %s\n", why);
	fflush(stdout);
	_exit(1);
}
int g_in_call; static struct op *g_cur;
static void on_fault(int sig) {
	static char b[64];
	if (!g_in_call) { signal(sig, SIG_DFL); raise(sig); return; }
	snprintf(b, sizeof b, "signal %d inside a library call", sig);
	if (g_cur) { g_cur->ret = -99; g_cur->outlen = 0; }
	violation(b);
}
// A call that does not come back: nothing has moved for two ticks.
static volatile unsigned long long tick_calls = ~0ull; static volatile int tick_same;
static void on_tick(int sig) {
	(void)sig;
	if (!g_in_call || n_calls != tick_calls) { tick_calls = n_calls; tick_same = 0; return; }
	if (++tick_same < 2) return;
	if (g_cur) { g_cur->ret = -98; g_cur->outlen = 0; }
	violation("a library call does not return");
}
static void session_begin(unsigned long long unit) {
	g_sel_at_start = g_sel;
	g_unit = unit; nops = 0; sess_n = 0; sess_overflow = 0; n_sessions++;
	for (int h = 0; h < MAXH; h++) { hm[h].kind = 0; hst[h] = &st_pool[h][0]; }
}
static long rec_every = 1;
static void session_end(void) {
	if (!f_rec || nrec <= 0 || sess_overflow || sess_n > SMALL || nops > 400) return;
	if (rec_every > 1 && rec_below((size_t)rec_every)) return;
	nrec--; n_recorded++;
	fprintf(f_rec, "S %s\n", g_sel_at_start); put_ops(f_rec);
}
static struct op *newop(char code, int h, int h2, int flags) {
	if (nops == MAXOPS) { sess_overflow = 1; nops = 0; }
	struct op *o = &ops[nops++]; memset(o, 0, sizeof *o);
	o->code = code; o->h = h; o->h2 = h2; o->flags = flags; n_calls++;
	return g_cur = o;
}

// Which codec functions the last call went through (linker wraps; -1 unknown).
int shim_last = -1;

// In each call below: "the model moves first", then the real call is compared.
static int g_stub;	// is the codec in force a stub (not compiled in)?
static int flag_is_stub(int flags);
static const char *flag_name(int flags);
#ifdef SEL_TABLES
// C17: the set of codecs the specification allows to be selected now (bit i =
// CODECS[i], bit 0 automatic, bit 15 nothing selected yet), narrowed by what
// each call is seen to enter.
#include "sel_tables.h"
static int g_flags_mode, g_auto_id; static unsigned cand = 1u << 15, avail_mask;
static void violation(const char *why);
static void narrow(int id) {
	unsigned ok = 0;
	if (!g_flags_mode || id <= 0) return;
	for (int i = 0; i < NCODECS; i++) if (cand >> i & 1) {
		if (i == id) ok |= 1u << i;
		if (i == 0 && (avail_mask >> id & 1) && (!g_auto_id || g_auto_id == id)) ok |= 1;
	}
	if (!ok) { static char b[128]; snprintf(b, sizeof b, "the call went through %s, which the flags passed so far do not allow (allowed: mask %#x)", CODECS[id].name, cand); violation(b); }
	if (ok == 1) g_auto_id = id;
	cand = ok;
	g_stub = !(avail_mask >> id & 1);
}
static void track_set(int flags) {
	unsigned f = (unsigned)flags & 0x1FF; if ((unsigned)flags & 0xFE00) f |= 0x200;
	if (cand & 1u << 15) cand = sel_first[f];
	else cand = sel_later[f] | (sel_keep[f] ? cand : 0);
	int one = 0; for (int i = 1; i < NCODECS; i++) if (cand == 1u << i) one = i;
	if (one) g_stub = !(avail_mask >> one & 1); else if (cand == 1) g_stub = 0;
}
#define NARROW() narrow(shim_last)
#else
#define NARROW() ((void)0)
#endif
static void track_flags(int flags) {
#ifdef SEL_TABLES
	if (g_flags_mode) { track_set(flags); return; }
#endif
	if (flags & 0xFFFF) { g_stub = flag_is_stub(flags); g_sel = flag_name(flags); } }

static int g_check_unmoved;	// move the state struct about between calls
static void scramble_state(int h) {
	if (!g_check_unmoved) return;
	struct base64_state *n = &st_pool[h][below(4)];
	if (n == hst[h]) return;
	*n = *hst[h]; memset(hst[h], 0xA5, sizeof **(&hst[h])); hst[h] = n;
}

static void op_init(char code, int h, int flags) {	// 'i' encode init, 'I' decode init
	struct op *o = newop(code, h, 0, flags);
	if (below(3) == 0) { }		// whatever the struct was last used for
	else if (!g_check_unmoved) memset(hst[h], (int)rnd(), sizeof *hst[h]); else fill_rnd((uint8_t *)hst[h], sizeof *hst[h]);
	g_in_call = 1;
	if (code == 'i') base64_stream_encode_init(hst[h], flags); else base64_stream_decode_init(hst[h], flags);
	g_in_call = 0;
	track_flags(flags);
	hm[h].kind = code == 'i' ? 'e' : 'd';
	hm[h].st = code == 'i' ? ENC_START : DEC_START;
	(void)o;
}
static void op_copy(int from, int to) {
	newop('c', from, to, 0);
	*hst[to] = *hst[from]; hm[to] = hm[from];
}

// Compare `out` with the model's output for src from encoder state st.
static int enc_expect(int st, const uint8_t *src, size_t n, const uint8_t *out, size_t outlen, size_t *at) {
	size_t j = 0;
	for (size_t i = 0; i < n; i++) {
		unsigned e = (unsigned)st * 256 + src[i];
		enc_edge[e] = 1;
		unsigned k = enc_outn[e];
		for (unsigned q = 0; q < k; q++) { if (j >= outlen || out[j] != enc_out[e][q]) { *at = j; return -1; } j++; }
		st = enc_next[e];
	}
	n_steps += n;
	if (j != outlen) { *at = j; return -1; }
	return st;
}
static char whybuf[256];
static size_t enc_cap(int n0, size_t n) { (void)n0; return 4 * (n / 3) + 4; }

#define CANARY 0x5C
static uint8_t *get_src(const uint8_t *data, size_t n) {
	if (g_ro && A_src.base) mprotect(A_src.base, A_src.size, PROT_READ | PROT_WRITE);
	uint8_t *s = place(&A_src, n, g_place_src);
	if (n) memcpy(s, data, n);
	if (g_ro) mprotect(A_src.base, A_src.size, PROT_READ);
	return s;
}
static uint8_t *get_out(size_t cap) {
	uint8_t *o = place(&A_out, cap, g_place_out);
	return o;
}

static void op_enc(int h, const uint8_t *data, size_t n) {
	struct op *o = newop('e', h, 0, 0);
	uint8_t *src = get_src(data, n);
	uint8_t *out = get_out(enc_cap(0, n) + 64);
	size_t outlen = (size_t)0xDEAD, at = 0;
	o->n = (uint32_t)n; o->so = keep(data, n);
	scramble_state(h);
	shim_last = -1; g_in_call = 1;
	base64_stream_encode(hst[h], (const char *)src, n, (char *)out, &outlen);
	g_in_call = 0; o->codec = shim_last; NARROW();
	size_t cap = enc_cap(0, n);
	o->outlen = (uint32_t)(outlen > cap ? 0 : outlen); o->oo = keep(out, o->outlen);
	if (g_stub) { if (outlen) violation("unavailable encoder produced output"); return; }
	if (outlen > cap) { snprintf(whybuf, sizeof whybuf, "stream_encode: outlen %zu for %zu bytes", outlen, n); violation(whybuf); }
	int st = enc_expect(hm[h].st, src, n, out, outlen, &at);
	if (st < 0) { snprintf(whybuf, sizeof whybuf, "stream_encode: output differs from the specification at offset %zu (srclen %zu, outlen %zu)", at, n, outlen); violation(whybuf); }
	hm[h].st = st;
}
static void op_fin(int h) {
	struct op *o = newop('f', h, 0, 0);
	uint8_t *out = get_out(64); size_t outlen = 0xDEAD;
	scramble_state(h);
	g_in_call = 1;
	base64_stream_encode_final(hst[h], (char *)out, &outlen);
	g_in_call = 0;
	o->outlen = (uint32_t)(outlen > 8 ? 0 : outlen); o->oo = keep(out, o->outlen);
	int st = hm[h].st;
	if (outlen != enc_finn[st] || memcmp(out, enc_fin[st], outlen)) { snprintf(whybuf, sizeof whybuf, "stream_encode_final: tail differs from the specification (outlen %zu)", outlen); violation(whybuf); }
	hm[h].kind = 'x';
}
static size_t dec_cap(size_t n) { return 3 * (n / 4) + 3; }
// Model's answer for a decode call; returns the new state, sets *ret.
static int dec_expect(int st, const uint8_t *src, size_t n, const uint8_t *out, size_t outlen, int *ret, size_t *at) {
	size_t j = 0;
	if (dec_term[st]) { *ret = 0; *at = 0; return outlen ? -1 : st; }
	for (size_t i = 0; i < n; i++) {
		unsigned e = (unsigned)st * 256 + src[i];
		dec_edge[e] = 1;
		if (dec_out[e] >= 0) { if (j >= outlen || out[j] != dec_out[e]) { *at = j; return -1; } j++; }
		st = dec_next[e];
		if (st == DEC_ERR) { n_steps += i + 1; break; }
	}
	if (st != DEC_ERR) n_steps += n;
	if (j != outlen) { *at = j; return -1; }
	*ret = st == DEC_ERR ? 0 : 1;
	return st;
}
static int op_dec(int h, const uint8_t *data, size_t n) {
	struct op *o = newop('d', h, 0, 0);
	uint8_t *src = get_src(data, n);
	uint8_t *out = get_out(dec_cap(n) + 64);
	size_t outlen = 0xDEAD, at = 0; int want = 0;
	o->n = (uint32_t)n; o->so = keep(data, n);
	scramble_state(h);
	shim_last = -1; g_in_call = 1;
	int ret = base64_stream_decode(hst[h], (const char *)src, n, (char *)out, &outlen);
	g_in_call = 0; o->codec = shim_last; NARROW();
	o->ret = ret; o->outlen = (uint32_t)(outlen > dec_cap(n) ? 0 : outlen); o->oo = keep(out, o->outlen);
	if (g_stub) { if (outlen || ret != -1) violation("unavailable decoder: expected -1 and no output"); n_ret[2]++; return -1; }
	if (outlen > dec_cap(n)) { snprintf(whybuf, sizeof whybuf, "stream_decode: outlen %zu for %zu characters", outlen, n); violation(whybuf); }
	int st = dec_expect(hm[h].st, src, n, out, outlen, &want, &at);
	if (st < 0) { snprintf(whybuf, sizeof whybuf, "stream_decode: output differs from the specification at offset %zu (srclen %zu, outlen %zu, ret %d)", at, n, outlen, ret); violation(whybuf); }
	if (ret != want) { snprintf(whybuf, sizeof whybuf, "stream_decode: returned %d, the specification says %d (srclen %zu)", ret, want, n); violation(whybuf); }
	n_ret[ret ? 1 : 0]++;
	hm[h].st = st;
	return ret;
}
static int g_threads, g_omp_relaxed;	// OpenMP driver: Omp.tla's AllowedAnswer
static void op_enc1(int flags, const uint8_t *data, size_t n) {
	struct op *o = newop('E', 0, g_threads, flags);
	uint8_t *src = n > (1u << 20) ? (uint8_t *)data : get_src(data, n);
	uint8_t *out = get_out(enc_cap(0, n) + 64);
	size_t outlen = 0xDEAD, at = 0;
	o->n = (uint32_t)n; o->so = keep(data, n);
	shim_last = -1; g_in_call = 1;
	base64_encode((const char *)src, n, (char *)out, &outlen, flags);
	g_in_call = 0; o->codec = shim_last;
	track_flags(flags); NARROW();
	size_t full = 4 * (n / 3) + (n % 3 ? 4 : 0);
	o->outlen = (uint32_t)(outlen > full ? 0 : outlen); o->oo = keep(out, o->outlen);
	if (g_stub) { if (outlen) violation("unavailable encoder produced output"); return; }
	if (outlen != full) { snprintf(whybuf, sizeof whybuf, "base64_encode: outlen %zu for %zu bytes", outlen, n); violation(whybuf); }
	// split off the tail that comes from EncFinal
	size_t body = 4 * (n / 3) + (n % 3);
	int st = enc_expect(ENC_START, src, n, out, body, &at);
	if (st < 0) { snprintf(whybuf, sizeof whybuf, "base64_encode: output differs from the specification at offset %zu (srclen %zu)", at, n); violation(whybuf); }
	if (outlen - body != enc_finn[st] || memcmp(out + body, enc_fin[st], enc_finn[st])) { snprintf(whybuf, sizeof whybuf, "base64_encode: tail differs from the specification (srclen %zu)", n); violation(whybuf); }
}
static int op_dec1(int flags, const uint8_t *data, size_t n) {
	struct op *o = newop('D', 0, g_threads, flags);
	uint8_t *src = n > (1u << 20) ? (uint8_t *)data : get_src(data, n);
	uint8_t *out = get_out(dec_cap(n) + 64);
	size_t outlen = 0xDEAD, at = 0; int want = 0;
	o->n = (uint32_t)n; o->so = keep(data, n);
	shim_last = -1; g_in_call = 1;
	int ret = base64_decode((const char *)src, n, (char *)out, &outlen, flags);
	g_in_call = 0; o->codec = shim_last;
	track_flags(flags); NARROW();
	o->ret = ret; o->outlen = (uint32_t)(outlen > dec_cap(n) ? 0 : outlen); o->oo = keep(out, o->outlen);
	if (g_stub) { if (outlen || ret != -1) violation("unavailable decoder: expected -1 and no output"); n_ret[2]++; return -1; }
	if (outlen > dec_cap(n)) { snprintf(whybuf, sizeof whybuf, "base64_decode: outlen %zu for %zu characters", outlen, n); violation(whybuf); }
	int st;
	if (g_omp_relaxed && ret == 0 && outlen == 0) { st = DEC_START; want = 1; for (size_t i = 0; i < n && st != DEC_ERR; i++) st = dec_next[(unsigned)st * 256 + src[i]]; if (st == DEC_ERR) want = 0; n_steps += n; }
	else st = dec_expect(DEC_START, src, n, out, outlen, &want, &at);
	if (st < 0) { snprintf(whybuf, sizeof whybuf, "base64_decode: output differs from the specification at offset %zu (srclen %zu, outlen %zu, ret %d)", at, n, outlen, ret); violation(whybuf); }
	if (want == 1 && !dec_complete[st]) want = 0;
	if (ret != want) { snprintf(whybuf, sizeof whybuf, "base64_decode: returned %d, the specification says %d (srclen %zu)", ret, want, n); violation(whybuf); }
	n_ret[ret ? 1 : 0]++;
	return ret;
}

// Text production from the specification's encoder tables.
static size_t spec_encode(const uint8_t *src, size_t n, uint8_t *out) {
	int st = ENC_START; size_t j = 0;
	for (size_t i = 0; i < n; i++) {
		unsigned e = (unsigned)st * 256 + src[i];
		for (unsigned q = 0; q < enc_outn[e]; q++) out[j++] = enc_out[e][q];
		st = enc_next[e];
	}
	for (unsigned q = 0; q < enc_finn[st]; q++) out[j++] = enc_fin[st][q];
	return j;
}
// Contents in which position i belongs to a class that depends on i modulo a
// period: what a vector unit treats alike then comes alone, or meets only
// certain neighbours.  Classes 0..4 make up the alphabet, the others do not
// belong to it.
static uint8_t class_char(int c) {
	static const uint8_t lo[] = { 0, 26, 52, 62, 63 }, n[] = { 26, 26, 10, 1, 1 };
	if (c < 5) return spec_alpha[lo[c] + below(n[c])];
	static const uint8_t blo[] = { 0, 32, ',', '-', '.', ':', '=', '@', '[', '`', '{', 128, 0xA0, 0xC0, 0xE0 }, bn[] = { 32, 11, 1, 1, 1, 3, 1, 1, 6, 1, 5, 32, 32, 32, 32 };
	c -= 5; return (uint8_t)(blo[c] + below(bn[c]));
}
enum { NCLASS = 20 };
static void styled(uint8_t *t, size_t n, int bad) {	// bad: how many residues get a class outside the alphabet
	static const int P[] = { 1, 2, 3, 4, 4, 4, 5, 8, 12, 16, 32, 64 };
	int p = P[below(12)], cls[64], few = (int)below(2), one = (int)below(5), two = (int)below(5);
	for (int i = 0; i < p; i++) cls[i] = few ? (below(2) ? one : two) : (int)below(5);
	for (int i = 0; i < bad; i++) cls[below(p)] = 5 + (int)below(NCLASS - 5);
	size_t from = bad && below(2) ? below(n + 1) : 0;	// a sound beginning, or none
	for (size_t i = 0; i < n; i++) t[i] = class_char(i < from && cls[i % p] >= 5 ? one : cls[i % p]);
}
static void pattern4(uint8_t *t, size_t n, int k) {	// period 4, one of the 625 combinations
	int c[4] = { k % 5, k / 5 % 5, k / 25 % 5, k / 125 % 5 };
	for (size_t i = 0; i < n; i++) t[i] = class_char(c[i & 3]);
}
// The bytes a text of whole quanta stands for.
static size_t spec_decode(const uint8_t *t, size_t n, uint8_t *out) {
	int st = DEC_START; size_t j = 0;
	for (size_t i = 0; i < n; i++) { unsigned e = (unsigned)st * 256 + t[i]; if (dec_out[e] >= 0) out[j++] = (uint8_t)dec_out[e]; st = dec_next[e]; }
	return j;
}
// Contents with memory: random stretches, runs of one value, and repetitions of
// what stood a vector's or a quantum's width before.
static void runs(uint8_t *p, size_t n, int text) {
	static const size_t LAG[] = { 1, 2, 3, 4, 6, 8, 12, 16, 24, 32, 48, 64, 96, 128 };
	for (size_t at = 0; at < n;) {
		size_t m = 1 + (size_t)below(1u << (1 + below(9))), lag = LAG[below(14)];
		if (m > n - at) m = n - at;
		int k = (int)below(5); uint8_t v = (uint8_t)rnd();
		if (k == 0) v = below(2) ? 0 : text ? 63 : 0xFF;
		if (k == 4 && lag > at) k = 3;
		for (size_t i = at; i < at + m; i++) {
			if (k == 2 || k == 3) v = (uint8_t)rnd();
			p[i] = k == 4 ? p[i - lag] : text ? spec_alpha[v & 63] : v;
		}
		at += m;
	}
}
// Bytes to encode: any, or such that their text is styled.
static void fill_src(uint8_t *p, size_t n) {
	static uint8_t t[8200];
	if (below(5) == 0) { runs(p, n, 0); return; }
	if (n > 6000 || n < 3 || below(4)) { fill_rnd(p, n); return; }
	styled(t, (n / 3 + 1) * 4, 0);
	static uint8_t o[6200]; size_t m = spec_decode(t, (n / 3 + 1) * 4, o);
	memcpy(p, o, n < m ? n : m);
}
// A random well-formed text of q quanta with np '=' (any trailing bits).
static size_t rnd_text(uint8_t *out, size_t q, int np) {
	size_t n = 4 * q;
	if (n < 8000 && below(4) == 0) styled(out, n, 0);
	else if (below(4) == 0) runs(out, n, 1);
	else for (size_t i = 0; i < n; i++) out[i] = spec_alpha[rnd() & 63];
	if (n) for (int i = 0; i < np; i++) out[n - 1 - i] = '=';
	return n;
}
static uint8_t *buf(size_t n) { static uint8_t *p[4]; static size_t c[4]; static int k;
	k = (k + 1) & 3; if (c[k] < n) { p[k] = realloc(p[k], n + 64); c[k] = n; if (!p[k]) die("oom"); } return p[k]; }

// Availability is probed once, before the first session; sessions only use
// flags with at most one codec bit (Select.tla and its driver cover the rest).
static uint16_t stub_bits;
static void probe_stub(int flags) {
	g_sel = flag_name(flags);
	struct base64_state s; size_t ol = 0; char o[16];
	base64_stream_decode_init(&s, flags);
	if (base64_stream_decode(&s, "", 0, o, &ol) == -1) stub_bits |= (uint16_t)flags;
}
static int flag_is_stub(int flags) { return (flags & stub_bits) != 0; }

// Interesting characters for the decoder: every class boundary.
static uint8_t rnd_badchar(void) {
	static const uint8_t b[] = { 0, 10, 13, 32, '!', '*', ',', '-', '.', '@', ':', '[', '^', '_', '`', '{', '~', 127, 128, 0x80 + '+', 0x80 + '/', 0x80 + 'A', 0xFF, '"' };
	for (;;) { uint8_t c = (rnd() & 1) ? b[below(sizeof b)] : (uint8_t)rnd(); if (spec_value[c] == 255) return c; }
}

#ifdef _OPENMP
#include <omp.h>
#endif
static unsigned long long n_orders, n_orders_kept;
#include "families.h"

int main(int argc, char **argv) {
	if (argc < 2) die("usage");
	g_argc = argc; g_argv = argv; g_family = argv[1];
	pg = sysconf(_SC_PAGESIZE);
	static uint8_t alt[1 << 16];
	stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt };
	sigaltstack(&ss, NULL);
	struct sigaction sa = { .sa_handler = on_fault, .sa_flags = SA_ONSTACK | SA_NODEFER };
	struct sigaction st = { .sa_handler = on_tick, .sa_flags = SA_RESTART | SA_ONSTACK };
	sigaction(SIGALRM, &st, NULL);
	struct itimerval it = { { 30, 0 }, { 30, 0 } }; setitimer(ITIMER_REAL, &it, NULL);
	sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGILL, &sa, NULL); sigaction(SIGFPE, &sa, NULL); sigaction(SIGABRT, &sa, NULL);
	g_fail = arg("fail", NULL); g_rec = arg("rec", NULL); nrec = argl("nrec", 0);
	if (g_rec) { f_rec = fopen(g_rec, "w"); if (!f_rec) die("cannot write the record"); }
	const char *want = arg("codec", "all");
	const char *skip = arg("skip", "");
	for (int i = 0; i < NCODECS; i++) {
		if (!strcmp(g_family, "flags")) { usable[nusable++] = i; continue; }
		if (strcmp(want, "all") && strcmp(want, CODECS[i].name)) continue;
		char pat[32]; snprintf(pat, sizeof pat, ",%s,", CODECS[i].name);
		if (strstr(skip, pat)) continue;
		if (!cpu_has(i)) continue;
		// "auto" is only meaningful in a process that never forced a codec.
		if (!CODECS[i].flag && strcmp(want, "auto")) continue;
		if (CODECS[i].flag) { probe_stub(CODECS[i].flag); if (flag_is_stub(CODECS[i].flag)) continue; }
		usable[nusable++] = i;
	}
	uint64_t seed = (uint64_t)argl("seed", 1);
	for (const char *p = g_family; *p; p++) seed = seed * 131 + (uint8_t)*p;
	for (const char *p = want; *p; p++) seed = seed * 131 + (uint8_t)*p;
	rseed(seed);
	if (!nusable) { printf("STATS {\"calls\":0,\"steps\":0,\"sessions\":0,\"recorded\":0,\"edges\":0,\"codecs\":[]}\n"); return 0; }
	int found = 0;
	for (size_t i = 0; i < sizeof FAMILIES / sizeof FAMILIES[0]; i++)
		if (!strcmp(FAMILIES[i].name, g_family)) { FAMILIES[i].fn(argl("scale", 1)); found = 1; }
	if (!found) die("no such family");
	if (f_rec) fclose(f_rec);
	unsigned long long ee = 0, de = 0;
	for (size_t i = 0; i < sizeof enc_edge; i++) ee += enc_edge[i];
	for (size_t i = 0; i < sizeof dec_edge; i++) de += dec_edge[i];
	printf("STATS {\"calls\":%llu,\"steps\":%llu,\"sessions\":%llu,\"recorded\":%llu,\"enc_edges\":%llu,\"dec_edges\":%llu,\"ret1\":%llu,\"ret0\":%llu,\"retm1\":%llu,\"orders\":%llu,\"orders_kept\":%llu,\"codecs\":[",
		n_calls, n_steps, n_sessions, n_recorded, ee, de, n_ret[1], n_ret[0], n_ret[2], n_orders, n_orders_kept);
	for (int i = 0; i < nusable; i++) printf("%s\"%s\"", i ? "," : "", CODECS[usable[i]].name);
	printf("]}\n");
	return 0;
}
