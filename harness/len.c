// C19: calls with very large lengths.  Reads sessions from standard input and
// prints one JSON record per session; TLC judges the lengths (LenTrace.tla).
//
// The source repeats a period whose length is a multiple of 3, 4 and the page
// size but of no larger power of two, mapped over and over from one file, so
// that a source position that is off by a power of two shows.  The
// destination is real memory.  Since the period leaves the transducers of
// B64.tla where they started (checked in LenMC), the expected output repeats
// too; it is computed from the exported transducers for one period and for
// what follows the last whole one.
//
//   enc N1 N2 ... | dec NPAD BAD N1 N2 ...     (N: chunk lengths; streaming)
//   ENC N         | DEC NPAD BAD N             (one-shot)
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include "libbase64.h"
#include "spec_tables.h"
#ifdef _OPENMP
#include <omp.h>
#endif

#define P ((size_t)4096 * 1023)
typedef unsigned long long ull;
static void die(const char *m) { fprintf(stderr, "len: %s\n", m); _exit(2); }
static uint8_t *map_source(const uint8_t *period, size_t n) {
	int fd = memfd_create("period", 0);
	if (fd < 0 || write(fd, period, P) != (ssize_t)P) die("memfd");
	size_t k = n / P + 2;
	uint8_t *m = mmap(NULL, k * P, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (m == MAP_FAILED) die("mmap");
	for (size_t i = 0; i < k; i++)
		if (mmap(m + i * P, P, PROT_READ, MAP_PRIVATE | MAP_FIXED, fd, 0) == MAP_FAILED) die("mmap period");
	close(fd);
	return m;
}
// Overwrites a few characters of the source in copies of their own pages.
static void put(uint8_t *at, const uint8_t *with, size_t n) {
	uintptr_t a = (uintptr_t)at & ~(uintptr_t)4095, e = ((uintptr_t)at + n + 4095) & ~(uintptr_t)4095;
	if (!n) return;
	if (mprotect((void *)a, e - a, PROT_READ | PROT_WRITE)) die("mprotect");
	memcpy(at, with, n);
	if (mprotect((void *)a, e - a, PROT_READ)) die("mprotect");
}
static uint8_t *pin, *ptxt;	// a period of bytes, a period of text
static uint8_t *eout, *dout;	// what they encode and decode to
static uint8_t *out; static size_t outcap;
static volatile ull cur_op;
static void on_fault(int sig) { if (sig == SIGALRM) { printf("\ncrash: a call does not return\n"); fflush(stdout); _exit(3); } printf("\ncrash: signal %d\n", sig); fflush(stdout); _exit(3); }

// Compares out[0..n) with `exp` (period q) and clears it; returns the first difference.
static long long content(size_t n, const uint8_t *exp, size_t q, const uint8_t *tail, size_t ntail) {
	size_t body = n - ntail;
	if (body % q) return -2;
	for (size_t at = 0; at < body; at += q) {
		if (memcmp(out + at, exp, q)) { size_t i = 0; while (out[at + i] == exp[i]) i++; return (long long)(at + i); }
		memset(out + at, 0xEE, q);
	}
	if (ntail && memcmp(out + body, tail, ntail)) { size_t i = 0; while (out[body + i] == tail[i]) i++; return (long long)(body + i); }
	memset(out + body, 0xEE, ntail + 64);
	return -1;
}

int main(int argc, char **argv) {
	if (argc < 4) die("usage: len CODEC MAXSRC MAXOUT [threads]");
	static const struct { const char *name; int flag; } F[] = { { "auto", 0 }, { "plain", BASE64_FORCE_PLAIN }, { "ssse3", BASE64_FORCE_SSSE3 },
		{ "sse41", BASE64_FORCE_SSE41 }, { "sse42", BASE64_FORCE_SSE42 }, { "avx", BASE64_FORCE_AVX }, { "avx2", BASE64_FORCE_AVX2 }, { "avx512", BASE64_FORCE_AVX512 },
		{ "neon32", BASE64_FORCE_NEON32 }, { "neon64", BASE64_FORCE_NEON64 } };
	int flag = -1; for (size_t i = 0; i < sizeof F / sizeof F[0]; i++) if (!strcmp(F[i].name, argv[1])) flag = F[i].flag;
	if (flag < 0) die("no such codec");
	size_t maxsrc = strtoull(argv[2], 0, 10); outcap = strtoull(argv[3], 0, 10) + 4096;
#ifdef _OPENMP
	if (argc > 4) omp_set_num_threads(atoi(argv[4]));
#endif
	signal(SIGSEGV, on_fault); signal(SIGBUS, on_fault); signal(SIGABRT, on_fault); signal(SIGFPE, on_fault); signal(SIGILL, on_fault); signal(SIGALRM, on_fault);
	pin = malloc(P); ptxt = malloc(P); eout = malloc(P / 3 * 4); dout = malloc(P / 4 * 3);
	uint8_t *tail = malloc(2 * P);
	ull s = 88172645463325252ull;
	for (size_t i = 0; i < P; i++) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; pin[i] = (uint8_t)(s >> 24); ptxt[i] = spec_alpha[(s >> 40) & 63]; }
	size_t j = 0; int st = ENC_START;
	for (size_t i = 0; i < P; i++) { unsigned e = (unsigned)st * 256 + pin[i]; for (unsigned k = 0; k < enc_outn[e]; k++) eout[j++] = enc_out[e][k]; st = enc_next[e]; }
	if (st != ENC_START || j != P / 3 * 4) die("period");
	j = 0; st = DEC_START;
	for (size_t i = 0; i < P; i++) { unsigned e = (unsigned)st * 256 + ptxt[i]; if (dec_out[e] >= 0) dout[j++] = (uint8_t)dec_out[e]; st = dec_next[e]; }
	if (st != DEC_START || j != P / 4 * 3) die("period");
	uint8_t *sb = map_source(pin, maxsrc), *sd = map_source(ptxt, maxsrc);
	out = mmap(NULL, outcap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (out == MAP_FAILED) die("mmap out");
	madvise(out, outcap, MADV_HUGEPAGE);

	char line[4096];
	while (fgets(line, sizeof line, stdin)) {
		if (getenv("LEN_ALARM")) alarm((unsigned)atoi(getenv("LEN_ALARM")));
		size_t c[64]; int nc = 0; char *p = line, op = 0; int once; long long bad = -1; int npad = 0;
		op = line[0]; once = op == 'E' || op == 'D'; p = line + 3;
		if (op == 'd' || op == 'D') { npad = (int)strtol(p, &p, 10); bad = strtoll(p, &p, 10); }
		for (char *e;; p = e) { size_t v = strtoull(p, &e, 10); if (e == p) break; if (nc < 64) c[nc++] = v; }
		size_t n = 0; for (int i = 0; i < nc; i++) n += c[i];
		if (n > maxsrc || n / 3 * 4 + 8 > outcap && (op | 32) == 'e') die("session larger than announced");
		printf("{\"op\":\"%s\",\"npad\":%d,\"bad\":%lld,\"calls\":[", op == 'E' ? "encode_once" : op == 'e' ? "encode" : op == 'D' ? "decode_once" : "decode", npad, bad);
		size_t at = 0, to = 0; struct base64_state b; size_t ol; long long diff = -1; size_t ntail = 0;
		if ((op | 32) == 'e') {
			if (once) { ol = 0xDEAD; base64_encode((char *)sb, n, (char *)out, &ol, flag); printf("[%zu,%zu,1]", n, ol); to = ol; }
			else {
				base64_stream_encode_init(&b, flag);
				for (int i = 0; i < nc; i++) { ol = 0xDEAD; base64_stream_encode(&b, (char *)sb + at, c[i], (char *)out + to, &ol); printf("%s[%zu,%zu,1]", i ? "," : "", c[i], ol); at += c[i]; to += ol; if (to > outcap) break; }
				if (to <= outcap - 8) { ol = 0xDEAD; base64_stream_encode_final(&b, (char *)out + to, &ol); printf(",[0,%zu,1]", ol); to += ol; }
			}
			// the last incomplete period, from the transducer
			size_t r = n % P; st = ENC_START;
			for (size_t i = 0; i < r; i++) { unsigned e = (unsigned)st * 256 + pin[i]; for (unsigned k = 0; k < enc_outn[e]; k++) tail[ntail++] = enc_out[e][k]; st = enc_next[e]; }
			for (unsigned k = 0; k < enc_finn[st]; k++) tail[ntail++] = enc_fin[st][k];
			diff = to > outcap || to < ntail ? -2 : content(to, eout, P / 3 * 4, tail, ntail);
		} else {
			uint8_t keep[4], kb = 0;
			memcpy(keep, sd + n - npad, (size_t)npad); put(sd + n - npad, (const uint8_t *)"==", (size_t)npad);
			if (bad >= 0) { kb = sd[bad]; uint8_t x = 0x80 | kb; put(sd + bad, &x, 1); }
			int ret;
			if (once) { ol = 0xDEAD; ret = base64_decode((char *)sd, n, (char *)out, &ol, flag); printf("[%zu,%zu,%d]", n, ol, ret); to = ol; }
			else {
				base64_stream_decode_init(&b, flag);
				for (int i = 0; i < nc; i++) { ol = 0xDEAD; ret = base64_stream_decode(&b, (char *)sd + at, c[i], (char *)out + to, &ol); printf("%s[%zu,%zu,%d]", i ? "," : "", c[i], ol, ret); at += c[i]; to += ol; if (to > outcap) break; }
			}
			size_t good = bad >= 0 ? (size_t)bad : n - (size_t)npad, r = good % P; st = DEC_START;
			for (size_t i = 0; i < r; i++) { unsigned e = (unsigned)st * 256 + ptxt[i]; if (dec_out[e] >= 0) tail[ntail++] = (uint8_t)dec_out[e]; st = dec_next[e]; }
			diff = to > outcap || to < ntail ? -2 : content(to, dout, P / 4 * 3, tail, ntail);
			if (bad >= 0) put(sd + bad, &kb, 1);
			put(sd + n - npad, keep, (size_t)npad);
		}
		// A wrong length makes the contents moot; the lengths are judged by TLC.
		printf("],\"diff\":%lld}\n", diff);
		fflush(stdout);
		if (diff != -1) { madvise(out, outcap, MADV_DONTNEED); }
	}
	return 0;
}
