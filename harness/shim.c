// Linker wraps (-Wl,--wrap=...): notes which codec function a call entered and
// whether a library call allocated memory.  SHIM_CODECS lists the codec
// functions the built library really has; if the library is restructured so
// that they no longer exist, nothing is noted.
#define _GNU_SOURCE
#include <stddef.h>
#include <time.h>
#include <sched.h>
#include <stdlib.h>
#include "libbase64.h"
extern int shim_last;
unsigned long shim_allocs;
// OpenMP runs: spread out the moments at which the threads come back.
int shim_delay;
static void linger(void) {
	static __thread unsigned long x;
	if (!shim_delay) return;
	if (!x) x = (unsigned long)&x >> 4;
	x = x * 6364136223846793005ul + 1442695040888963407ul;
	struct timespec ts = { 0, (x >> 13) % 60000 };
	if ((x >> 7) & 1) nanosleep(&ts, NULL); else sched_yield();
}
// OpenMP runs under an order of the workers' calls exported from OmpRace.tla:
// (worker, 0: begin, 1: run, 2: end).  A worker whose turn it is not waits; an
// order that this program's workers do not follow is given up.
extern int omp_in_parallel(void) __attribute__((weak));
extern int omp_get_thread_num(void) __attribute__((weak));
extern int omp_get_num_threads(void) __attribute__((weak));
const unsigned char *shim_plan; int shim_nplan; volatile int shim_at, shim_off;
static volatile long t_end;
static long now_us(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000 + t.tv_nsec / 1000; }
static void turn(int kind) {
	if (!shim_plan || shim_off || !omp_in_parallel || !omp_in_parallel()) return;
	int key = omp_get_thread_num() * 3 + kind; long t0 = now_us();
	for (;;) {
		int at = __atomic_load_n(&shim_at, __ATOMIC_ACQUIRE);
		if (at >= shim_nplan || shim_off) return;
		if (shim_plan[at] == key && !(at && shim_plan[at - 1] % 3 == 2 && now_us() - t_end < 60)) break;
		if (now_us() - t0 > 200000) { shim_off = 1; return; }
		sched_yield();
	}
	if (kind == 2) t_end = now_us();
}
static void took(int kind) {
	if (!shim_plan || shim_off || !omp_in_parallel || !omp_in_parallel()) return;
	int at = shim_at;
	if (at < shim_nplan && shim_plan[at] == omp_get_thread_num() * 3 + kind) __atomic_store_n(&shim_at, at + 1, __ATOMIC_RELEASE);
}
// ... or with all workers coming back from the codec at the same moment.
int shim_together;
volatile int shim_back;
static void together(void) {
	if (!shim_together || !omp_in_parallel || !omp_in_parallel()) return;
	int T = omp_get_num_threads(), k = __atomic_add_fetch(&shim_back, 1, __ATOMIC_ACQ_REL), goal = (k + T - 1) / T * T;
	for (int i = 0; i < 20000 && __atomic_load_n(&shim_back, __ATOMIC_ACQUIRE) < goal; i++) ;
}
// (the decoders clear *outlen when they begin, and store it when they are done)
#define BEFORE(dec) turn(0); if (shim_plan && dec) *l = 0; took(0); turn(1);
#define AFTER took(1); turn(2); took(2); together(); if (shim_delay) linger();
// Codecs in this mask (compiled in, but not executable on this CPU) are noted
// and then stood in for by the plain codec, so that selection can be observed
// without executing instructions the CPU lacks.
unsigned shim_sub;
#ifdef SHIM_SUB
extern void __real_base64_stream_encode_plain(struct base64_state *, const char *, size_t, char *, size_t *);
extern int  __real_base64_stream_decode_plain(struct base64_state *, const char *, size_t, char *, size_t *);
#define SUB_E(i) if (shim_sub >> i & 1) { __real_base64_stream_encode_plain(s, a, n, o, l); return; }
#define SUB_D(i) if (shim_sub >> i & 1) return __real_base64_stream_decode_plain(s, a, n, o, l);
#else
#define SUB_E(i)
#define SUB_D(i)
#endif
#define CODEC(i, arch) \
	extern void __real_base64_stream_encode_##arch(struct base64_state *, const char *, size_t, char *, size_t *); \
	extern int  __real_base64_stream_decode_##arch(struct base64_state *, const char *, size_t, char *, size_t *); \
	void __wrap_base64_stream_encode_##arch(struct base64_state *s, const char *a, size_t n, char *o, size_t *l) { shim_last = i; SUB_E(i) BEFORE(0) __real_base64_stream_encode_##arch(s, a, n, o, l); AFTER } \
	int  __wrap_base64_stream_decode_##arch(struct base64_state *s, const char *a, size_t n, char *o, size_t *l) { shim_last = i; SUB_D(i) BEFORE(1) int r = __real_base64_stream_decode_##arch(s, a, n, o, l); AFTER return r; }
#ifdef SHIM_CODECS
SHIM_CODECS
#endif

extern int g_in_call;
extern void *__real_malloc(size_t);
extern void *__real_calloc(size_t, size_t);
extern void *__real_realloc(void *, size_t);
extern void __real_free(void *);
void *__wrap_malloc(size_t n) { if (g_in_call) shim_allocs++; return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (g_in_call) shim_allocs++; return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { if (g_in_call) shim_allocs++; return __real_realloc(p, n); }
void __wrap_free(void *p) { if (g_in_call) shim_allocs++; __real_free(p); }
extern void *__real_aligned_alloc(size_t, size_t);
extern void *__real_memalign(size_t, size_t);
extern int __real_posix_memalign(void **, size_t, size_t);
extern void *__real_mmap(void *, size_t, int, int, int, long);
void *__wrap_aligned_alloc(size_t a, size_t n) { if (g_in_call) shim_allocs++; return __real_aligned_alloc(a, n); }
void *__wrap_memalign(size_t a, size_t n) { if (g_in_call) shim_allocs++; return __real_memalign(a, n); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { if (g_in_call) shim_allocs++; return __real_posix_memalign(p, a, n); }
void *__wrap_mmap(void *p, size_t n, int a, int b, int c, long d) { if (g_in_call) shim_allocs++; return __real_mmap(p, n, a, b, c, d); }
