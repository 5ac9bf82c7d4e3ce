// C09: enumerates schedules of two threads at instruction granularity.
//
// Thread A runs its program with the trap flag set; after every one of its
// instructions a copy of the process is made (fork) in which thread B - a real
// second thread - runs its program to the end (one preemption), or up to its
// j-th instruction, A then finishing before B does (two preemptions).  The
// parent process goes on with A undisturbed.  Every process starts before the
// library's first use, or right after a first use in its past, when the
// programs may also go on with a stream that is open already.  Results are compared with the exported transducers,
// and the codecs entered with the outcomes Select.tla allows (sel_out.h).
//
//   sched enum LEN fail=F pairs=c1:c2,... two=K maxj=J
//   sched stress THREADS ROUNDS fail=F codec=...
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <ucontext.h>
#include <fcntl.h>
#include <time.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include "libbase64.h"
#include "spec_tables.h"
#include "sel_out.h"	// struct outcome { past, kind1, calls1, flag1, open1, kind2, ... }

static __thread int ent[8]; static __thread int nent;
#define CODEC(i, arch) \
	extern void __real_base64_stream_encode_##arch(struct base64_state *, const char *, size_t, char *, size_t *); \
	extern int  __real_base64_stream_decode_##arch(struct base64_state *, const char *, size_t, char *, size_t *); \
	void __wrap_base64_stream_encode_##arch(struct base64_state *s, const char *a, size_t n, char *o, size_t *l) { if (nent < 8) ent[nent++] = i; __real_base64_stream_encode_##arch(s, a, n, o, l); } \
	int  __wrap_base64_stream_decode_##arch(struct base64_state *s, const char *a, size_t n, char *o, size_t *l) { if (nent < 8) ent[nent++] = i; return __real_base64_stream_decode_##arch(s, a, n, o, l); }
#ifdef SHIM_CODECS
SHIM_CODECS
#endif

enum { MAXN = 4096 };
static const struct { const char *name; int flag; const char *cpu; } CODECS[] = {
	{ "auto", 0, "" }, { "plain", BASE64_FORCE_PLAIN, "" }, { "ssse3", BASE64_FORCE_SSSE3, "ssse3" }, { "sse41", BASE64_FORCE_SSE41, "sse4.1" },
	{ "sse42", BASE64_FORCE_SSE42, "sse4.2" }, { "avx", BASE64_FORCE_AVX, "avx" }, { "avx2", BASE64_FORCE_AVX2, "avx2" }, { "avx512", BASE64_FORCE_AVX512, "avx512" } };
static int cpu_has(int c) {
	__builtin_cpu_init();
	switch (c) {
	case 2: return __builtin_cpu_supports("ssse3") != 0; case 3: return __builtin_cpu_supports("sse4.1") != 0;
	case 4: return __builtin_cpu_supports("sse4.2") != 0; case 5: return __builtin_cpu_supports("avx") != 0;
	case 6: return __builtin_cpu_supports("avx2") != 0; case 7: return __builtin_cpu_supports("avx512vl") && __builtin_cpu_supports("avx512vbmi");
	}
	return 1;
}

// A program and what it produced.
struct run {
	int prog, flag, codec, open; size_t n, cut; struct base64_state st;
	uint8_t src[MAXN]; size_t outlen; int ret[2];
	uint8_t out[2 * MAXN]; int ent[8], nent;
};
enum { P_SENC, P_SDEC, P_ENC, P_DEC, NPROG };
static const char *const pname[] = { "stream encode", "stream decode", "base64_encode", "base64_decode" };

static __attribute__((noinline)) void perform(struct run *r) {
	struct base64_state st; size_t l = 0, t = 0;
	nent = 0;
	switch (r->prog) {
	case P_SENC:
		if (r->open) st = r->st; else base64_stream_encode_init(&st, r->flag);
		base64_stream_encode(&st, (char *)r->src, r->cut, (char *)r->out, &l); t = l;
		base64_stream_encode(&st, (char *)r->src + r->cut, r->n - r->cut, (char *)r->out + t, &l); t += l;
		base64_stream_encode_final(&st, (char *)r->out + t, &l); t += l;
		break;
	case P_SDEC:
		if (r->open) st = r->st; else base64_stream_decode_init(&st, r->flag);
		r->ret[0] = base64_stream_decode(&st, (char *)r->src, r->cut, (char *)r->out, &l); t = l;
		r->ret[1] = base64_stream_decode(&st, (char *)r->src + r->cut, r->n - r->cut, (char *)r->out + t, &l); t += l;
		break;
	case P_ENC: base64_encode((char *)r->src, r->n, (char *)r->out, &t, r->flag); break;
	case P_DEC: r->ret[0] = base64_decode((char *)r->src, r->n, (char *)r->out, &t, r->flag); break;
	}
	r->outlen = t;
	memcpy(r->ent, ent, sizeof ent); r->nent = nent;
}
// The specification's answer.
static const char *judge(const struct run *r) {
	static char why[160]; size_t j = 0;
	if (r->prog == P_SENC || r->prog == P_ENC) {
		int s = ENC_START;
		for (size_t i = 0; i < r->n; i++) { unsigned e = (unsigned)s * 256 + r->src[i]; for (unsigned q = 0; q < enc_outn[e]; q++) { if (j >= r->outlen || r->out[j] != enc_out[e][q]) goto diff; j++; } s = enc_next[e]; }
		for (unsigned q = 0; q < enc_finn[s]; q++) { if (j >= r->outlen || r->out[j] != enc_fin[s][q]) goto diff; j++; }
		if (j != r->outlen) goto diff;
		return NULL;
	}
	int s = DEC_START, ret[2] = { 1, 1 };
	for (int c = 0; c < 2; c++) {
		size_t a = c ? r->cut : 0, b = c ? r->n : r->cut;
		if (r->prog == P_DEC) { a = c ? r->n : 0; b = r->n; }
		if (dec_term[s]) { ret[c] = 0; continue; }
		for (size_t i = a; i < b && s != DEC_ERR; i++) { unsigned e = (unsigned)s * 256 + r->src[i]; if (dec_out[e] >= 0) { if (j >= r->outlen || r->out[j] != dec_out[e]) goto diff; j++; } s = dec_next[e]; }
		if (s == DEC_ERR) ret[c] = 0;
	}
	if (j != r->outlen) goto diff;
	if (r->prog == P_DEC) { if (r->ret[0] != (ret[0] && dec_complete[s])) { snprintf(why, sizeof why, "%s returned %d", pname[r->prog], r->ret[0]); return why; } }
	else if (r->ret[0] != ret[0] || r->ret[1] != ret[1]) { snprintf(why, sizeof why, "%s returned %d, %d; the specification says %d, %d", pname[r->prog], r->ret[0], r->ret[1], ret[0], ret[1]); return why; }
	return NULL;
diff:
	snprintf(why, sizeof why, "%s: output differs from the specification at offset %zu (length %zu)", pname[r->prog], j, r->outlen);
	return why;
}

// ---------------------------------------------------------------- shared
static struct shared {
	struct run A, B;
	volatile int failed; char why[400];
	long schedules, steps, jsteps, blocked; int changes[64], nchanges;
	unsigned char seen[16384];
} *S;
static int past = -1;		// the codec selected before the threads start, -1: none
static int auto_id, px, py;	// codec ids behind "auto", "x", "y"
static int has_wraps;
static int k_want = -1;		// replay: only this preemption point

static int kind_of(int p) { return p == P_SENC || p == P_ENC ? 0 : 1; }
static int calls_of(int p) { return p == P_SENC || p == P_SDEC ? 2 : 1; }
static int code_of(int c) { return c == 0 ? 0 : c == px ? 1 : 2; }
static int fl_of(const struct run *r) { return code_of(r->codec); }
static int outcome_ok(void) {
	if (!has_wraps) return 1;
	int id[4] = { auto_id, px, py, -1 };
	for (int i = 0; i < NOUT; i++) {
		const struct outcome *o = &OUT[i];
		if (o->past != (past < 0 ? 3 : code_of(past)) || o->o1 != S->A.open || o->o2 != S->B.open) continue;
		if (o->k1 != kind_of(S->A.prog) || o->c1 != calls_of(S->A.prog) || o->f1 != fl_of(&S->A)) continue;
		if (o->k2 != kind_of(S->B.prog) || o->c2 != calls_of(S->B.prog) || o->f2 != fl_of(&S->B)) continue;
		int ok = S->A.nent == o->c1 && S->B.nent == o->c2;
		for (int q = 0; ok && q < o->c1; q++) ok = S->A.ent[q] == id[o->e1[q]];
		for (int q = 0; ok && q < o->c2; q++) ok = S->B.ent[q] == id[o->e2[q]];
		if (ok) { S->seen[i] = 1; return 1; }
	}
	return 0;
}
static void verify(int k, int j) {	// in the copy; ends it
	const char *w = judge(&S->A), *who = "A";
	static char oc[160];
	if (!w) { w = judge(&S->B); who = "B"; }
	if (!w && !outcome_ok()) {
		snprintf(oc, sizeof oc, "codecs entered (A: %d of ids %d %d, B: %d of ids %d %d) are no outcome of Select.tla", S->A.nent, S->A.ent[0], S->A.ent[1], S->B.nent, S->B.ent[0], S->B.ent[1]);
		w = oc;
	}
	if (w) {
		snprintf(S->why, sizeof S->why, "thread %s: %s; %s%s%sA = %s with %s stopped after %d instructions, B = %s with %s %s%d", who, w, past < 0 ? "first use; " : CODECS[past].name, past < 0 ? "" : " selected before; ", S->A.open ? "A's stream was open; " : S->B.open ? "B's stream was open; " : "", pname[S->A.prog], CODECS[S->A.codec].name, k,
			pname[S->B.prog], CODECS[S->B.codec].name, j < 0 ? "run to the end, j=" : "stopped after instructions: ", j);
		_exit(1);
	}
	_exit(0);
}
static void on_crash(int sig) {
	snprintf(S->why, sizeof S->why, "signal %d in a library call under a schedule; A = %s with %s, B = %s with %s", sig, pname[S->A.prog], CODECS[S->A.codec].name, pname[S->B.prog], CODECS[S->B.codec].name);
	_exit(1);
}

// ---------------------------------------------------------------- stepping
#define TF 0x100
static inline void tf_on(void) {
#ifdef __x86_64__
	__asm__ volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc");
#else
	__asm__ volatile("pushfl; orl $0x100,(%%esp); popfl" ::: "memory", "cc");
#endif
}
static inline void tf_off(void) {
#ifdef __x86_64__
	__asm__ volatile("pushfq; andq $~0x100,(%%rsp); popfq" ::: "memory", "cc");
#else
	__asm__ volatile("pushfl; andl $~0x100,(%%esp); popfl" ::: "memory", "cc");
#endif
}
#ifdef __x86_64__
#define EFL uc->uc_mcontext.gregs[REG_EFL]
#else
#define EFL uc->uc_mcontext.gregs[REG_EFL]
#endif
enum mode { M_NONE, M_COUNT, M_ONE, M_TWO, M_B };
static __thread enum mode mode; static __thread int step;
static int two_k, b_stop, maxj, jstride_after;
static sem_t b_paused, a_done;
extern char __data_start[], _end[];
static char *snap; static size_t snap_n;
static volatile int b_was_paused;

// A thread that cannot go on because the stopped one holds a lock is let wait:
// the schedule is then the one in which the stopped thread goes on first.
static volatile pid_t a_tid, b_tid; static volatile int a_running, b_over;
static int asleep(pid_t t) {
	char p[64], b[256]; snprintf(p, sizeof p, "/proc/self/task/%d/stat", (int)t);
	int fd = open(p, O_RDONLY); if (fd < 0) return 0;
	ssize_t n = read(fd, b, sizeof b - 1); close(fd); if (n <= 0) return 0;
	b[n] = 0; char *q = strrchr(b, ')'); return q && q[1] && q[2] == 'S';
}
static double cpu_of(pthread_t t) { clockid_t c; struct timespec ts; if (pthread_getcpuclockid(t, &c) || clock_gettime(c, &ts)) return 0; return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec; }
struct watch { int slept; double cpu0; };
static int stuck(struct watch *w, pthread_t t, pid_t tid) {	// called every millisecond or so
	w->slept = asleep(tid) ? w->slept + 1 : 0;
	return w->slept >= 3 || cpu_of(t) - w->cpu0 > 0.02;
}
static void nap(long us) { struct timespec ts = { 0, us * 1000 }; nanosleep(&ts, NULL); }
static pthread_t ta, tb;

static void *thread_b(void *p) {
	b_tid = (pid_t)syscall(SYS_gettid);
	sigset_t s; sigemptyset(&s); sigaddset(&s, SIGTRAP); pthread_sigmask(SIG_UNBLOCK, &s, NULL);
	if (p) { mode = M_B; step = 0; tf_on(); perform(&S->B); tf_off(); mode = M_NONE; sem_post(&b_paused); }
	else perform(&S->B);
	b_over = 1;
	return NULL;
}
static void wait_child(pid_t p) {
	int st; while (waitpid(p, &st, 0) < 0) if (errno != EINTR) _exit(2);
	S->schedules++;
	if (!WIFEXITED(st) || WEXITSTATUS(st) > 1) { if (!S->why[0]) snprintf(S->why, sizeof S->why, "a schedule ended with status %#x", st); S->failed = WIFEXITED(st) ? 2 : 1; }
	else if (WEXITSTATUS(st) == 1) S->failed = 1;
}
static int final_k, final_j; static int must_join;

static void wait_for_a(void) {	// in B, stopped: until A is done, or cannot go on
	struct watch w = { 0, -1 };
	for (;;) {
		struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += 1000000; if (ts.tv_nsec >= 1000000000) { ts.tv_nsec -= 1000000000; ts.tv_sec++; }
		if (!sem_timedwait(&a_done, &ts)) return;
		if (errno != ETIMEDOUT || !a_running) continue;
		if (w.cpu0 < 0) w.cpu0 = cpu_of(ta);
		if (stuck(&w, ta, a_tid)) { S->blocked++; return; }
	}
}
static void on_trap(int sig, siginfo_t *si, void *p) {
	ucontext_t *uc = p; (void)sig; (void)si;
	switch (mode) {
	case M_COUNT:	// note after which instructions global memory differs
		step++;
		if (memcmp(snap, __data_start, snap_n)) { memcpy(snap, __data_start, snap_n); if (S->nchanges < 64) S->changes[S->nchanges++] = step; }
		break;
	case M_ONE:
		step++;
		if (k_want >= 0 && step != k_want) break;
		{ pid_t c = _Fork(); if (c < 0) _exit(2);
		  if (!c) {
			pthread_t t; mode = M_NONE; alarm(60);
			if (pthread_create(&t, NULL, thread_b, NULL)) _exit(2);
			struct watch w = { 0, 0 }; int blocked = 0;
			for (int i = 0; i < 20 && !b_over; i++) nap(50);
			while (!b_over && !(blocked = b_tid && stuck(&w, t, b_tid))) nap(1000);
			if (!blocked) pthread_join(t, NULL);
			else { tb = t; S->blocked++; }
			final_k = step; final_j = -1; must_join = blocked ? 2 : 0; mode = M_NONE;
			EFL &= ~(long)TF; return;	// A goes on undisturbed
		  }
		  wait_child(c);
		  if (S->failed) _exit(0);
		}
		break;
	case M_TWO:
		step++;
		if (step != two_k) break;
		for (int j = 1; j <= maxj; j += (j < jstride_after ? 1 : 29)) {
			S->jsteps++;
			pid_t c = _Fork(); if (c < 0) _exit(2);
			if (!c) {
				sem_init(&b_paused, 0, 0); sem_init(&a_done, 0, 0); b_stop = j; mode = M_NONE; alarm(60);
				if (pthread_create(&tb, NULL, thread_b, (void *)1)) _exit(2);
				struct watch w = { 0, 0 };
				for (;;) {
					struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += 1000000; if (ts.tv_nsec >= 1000000000) { ts.tv_nsec -= 1000000000; ts.tv_sec++; }
					if (!sem_timedwait(&b_paused, &ts)) break;
					if (errno == ETIMEDOUT && b_tid && stuck(&w, tb, b_tid)) { S->blocked++; break; }
				}
				ta = pthread_self(); a_tid = (pid_t)syscall(SYS_gettid);
				final_k = step; final_j = j; must_join = 1; a_running = 1;
				EFL &= ~(long)TF; return;
			}
			int st; while (waitpid(c, &st, 0) < 0) if (errno != EINTR) _exit(2);
			S->schedules++;
			if (WIFEXITED(st) && WEXITSTATUS(st) == 7) break;	// B was over before instruction j
			if (!WIFEXITED(st) || WEXITSTATUS(st)) { S->failed = WIFEXITED(st) && WEXITSTATUS(st) != 1 ? 2 : 1; _exit(0); }
		}
		_exit(0);
	case M_B:
		if (++step == b_stop) { b_was_paused = 1; sem_post(&b_paused); wait_for_a(); EFL &= ~(long)TF; mode = M_NONE; }
		break;
	default: EFL &= ~(long)TF; break;
	}
}
static void a_thread(enum mode m) {
	mode = m; step = 0;
	tf_on(); perform(&S->A); tf_off();
	if (mode == M_COUNT || mode == M_ONE || mode == M_TWO) { S->steps = step; _exit(0); }
	// a copy: one schedule complete
	if (must_join) {
		struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 20;
		if (must_join == 1) sem_post(&a_done);
		if (pthread_timedjoin_np(tb, NULL, &ts)) {
			snprintf(S->why, sizeof S->why, "thread B does not finish, although A is done; A = %s with %s stopped after %d instructions, B = %s with %s", pname[S->A.prog], CODECS[S->A.codec].name, final_k, pname[S->B.prog], CODECS[S->B.codec].name);
			_exit(1);
		}
		if (must_join == 1 && !b_was_paused) _exit(7);
	}
	verify(final_k, final_j);
}
static uint64_t rs;
static unsigned rnd(void) { rs = rs * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)(rs >> 33); }
static void have_past(void) {	// before there are threads
	struct base64_state x; int f;
	if (past < 0) return;
	f = CODECS[past].flag;
	base64_stream_decode_init(&x, f);
	for (int q = 0; q < 2; q++) { struct run *r = q ? &S->B : &S->A; if (!r->open) continue;
		if (r->prog == P_SENC) base64_stream_encode_init(&r->st, f); else base64_stream_decode_init(&r->st, f); }
}
static void fill(struct run *r, int prog, int codec, size_t n) {
	memset(r, 0, sizeof *r);
	r->prog = prog; r->codec = codec; r->flag = CODECS[codec].flag;
	if (kind_of(prog) == 0) for (size_t i = 0; i < n; i++) r->src[i] = (uint8_t)rnd();
	else { n = n / 4 * 4; for (size_t i = 0; i < n; i++) r->src[i] = spec_alpha[rnd() & 63]; if (rnd() & 1) r->src[n - 1] = '='; if (rnd() % 5 == 0) r->src[n / 2 + rnd() % (n / 2)] = '!'; }
	r->n = n; r->cut = n / 2 + rnd() % 5;
}
static const char *opt(int argc, char **argv, const char *k, const char *d) {
	size_t l = strlen(k); for (int i = 2; i < argc; i++) if (!strncmp(argv[i], k, l) && argv[i][l] == '=') return argv[i] + l + 1; return d;
}
static void *idle(void *p) { sem_wait(p); return NULL; }
static pid_t pristine(enum mode m) {
	fflush(NULL);
	pid_t p = fork();
	if (p < 0) exit(2);
	if (!p) {
		// the C library takes short cuts while there is one thread; in the
		// schedules there are two from the start
		static sem_t never; pthread_t t; sem_init(&never, 0, 0);
		if (pthread_create(&t, NULL, idle, &never)) _exit(2); have_past(); a_thread(m); _exit(0); }
	int st; while (waitpid(p, &st, 0) < 0) if (errno != EINTR) exit(2);
	if (!WIFEXITED(st) || (WEXITSTATUS(st) && !S->failed)) { if (!S->why[0]) snprintf(S->why, sizeof S->why, "thread A alone ended with status %#x", st); S->failed = 1; }
	return p;
}
static void report(const char *fail) {
	FILE *f = fopen(fail, "w"); if (f) { fprintf(f, "%s\n", S->why);
		for (int q = 0; q < 2; q++) { struct run *r = q ? &S->B : &S->A; fprintf(f, "%s prog=%d codec=%s n=%zu cut=%zu src=", q ? "B" : "A", r->prog, CODECS[r->codec].name, r->n, r->cut); for (size_t i = 0; i < r->n; i++) fprintf(f, "%02x", r->src[i]); fputc('\n', f); }
		fclose(f); }
	printf("DISAGREE %s\n", S->why); exit(S->failed == 2 ? 2 : 1);
}
static int codec_index(const char *n, size_t l) { for (int i = 0; i < 8; i++) if (strlen(CODECS[i].name) == l && !strncmp(CODECS[i].name, n, l)) return i; return -1; }
static void die_(const char *m) { fprintf(stderr, "%s\n", m); exit(2); }
static int find_auto(void) {
	int *v = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	fflush(NULL);
	pid_t p = fork(); if (!p) { fill(&S->A, P_ENC, 0, 8); perform(&S->A); v[0] = S->A.nent ? S->A.ent[0] : 0; v[1] = judge(&S->A) == NULL; _exit(0); }
	waitpid(p, NULL, 0); return v[0];
}
// ---------------------------------------------------------------- stress
static pthread_barrier_t bar; static int stress_codecs[8], nstress;
struct worker { pthread_t t; uint64_t seed; const char *why; long calls; struct run *r; int first; };
static void *work(void *p) {
	struct worker *w = p; uint64_t save;
	pthread_barrier_wait(&bar);
	for (int i = 0; i < (w->first ? 4 : 60) && !w->why; i++) {
		save = w->seed; save = save * 6364136223846793005ull + 1442695040888963407ull; w->seed = save;
		perform(&w->r[i]); w->calls++;
	}
	return NULL;
}
static void stress(int nt, int rounds, const char *fail, uint64_t seed) {
	long total = 0;
	for (int q = 0; q < rounds; q++) {
		fflush(NULL);
		pid_t c = fork(); if (c < 0) exit(2);
		if (!c) {
			alarm(200);
			rs = seed + (uint64_t)q * 977; struct worker *w = calloc((size_t)nt, sizeof *w); int first = q % 2 == 0;
			int per = first ? 4 : 60;
			for (int i = 0; i < nt; i++) { w[i].first = first; w[i].r = calloc((size_t)per, sizeof(struct run));
				for (int k = 0; k < per; k++) fill(&w[i].r[k], (int)(rnd() % NPROG), first ? 0 : stress_codecs[rnd() % (unsigned)nstress], first ? 24 + rnd() % 200 : 100 + rnd() % 3000); }
			pthread_barrier_init(&bar, NULL, (unsigned)nt);
			for (int i = 0; i < nt; i++) if (pthread_create(&w[i].t, NULL, work, &w[i])) _exit(2);
			for (int i = 0; i < nt; i++) pthread_join(w[i].t, NULL);
			for (int i = 0; i < nt; i++) for (int k = 0; k < per; k++) { const char *y = judge(&w[i].r[k]); S->schedules++;
				if (!y && first && has_wraps) for (int e = 0; e < w[i].r[k].nent; e++) if (w[i].r[k].ent[e] != auto_id) y = "a codec other than the automatic choice was entered";
				if (y) { snprintf(S->why, sizeof S->why, "stress round %d (%d threads%s): %s", q, nt, first ? ", first use" : "", y); S->A = S->B = w[i].r[k]; _exit(1); } }
			_exit(0);
		}
		int st; while (waitpid(c, &st, 0) < 0) if (errno != EINTR) exit(2);
		if (!WIFEXITED(st) || WEXITSTATUS(st)) { S->failed = WIFEXITED(st) && WEXITSTATUS(st) == 2 ? 2 : 1; if (!S->why[0]) snprintf(S->why, sizeof S->why, "stress round %d ended with status %#x", q, st); report(fail); }
	}
	total = S->schedules;
	printf("STATS {\"calls\":%ld,\"rounds\":%d}\n", total, rounds);
}

int main(int argc, char **argv) {
	if (argc < 3) return 2;
	const char *fail = opt(argc, argv, "fail", "/dev/null");
	has_wraps = atoi(opt(argc, argv, "wraps", "1"));
	rs = (uint64_t)atol(opt(argc, argv, "seed", "1")) * 0x9E3779B97F4A7C15ull + 1;
	S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (S == MAP_FAILED) return 2;
	struct sigaction sa; memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, NULL);
	memset(&sa, 0, sizeof sa); sa.sa_handler = on_crash; sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGILL, &sa, NULL); sigaction(SIGABRT, &sa, NULL);
	auto_id = find_auto();
	if (!strcmp(argv[1], "stress")) {
		const char *c = opt(argc, argv, "codecs", "auto");
		while (*c) { size_t l = strcspn(c, ","); int i = codec_index(c, l); if (i >= 0 && cpu_has(i)) stress_codecs[nstress++] = i; c += l + (c[l] == ','); }
		px = py = -1;
		stress(atoi(argv[2]), atoi(opt(argc, argv, "rounds", "50")), fail, (uint64_t)atol(opt(argc, argv, "seed", "1")));
		return 0;
	}
	size_t n = (size_t)atol(argv[2]); int two = atoi(opt(argc, argv, "two", "0"));
	maxj = atoi(opt(argc, argv, "maxj", "400")); jstride_after = atoi(opt(argc, argv, "jdense", "400"));
	k_want = atoi(opt(argc, argv, "k", "-1"));
	snap_n = (size_t)(_end - __data_start); snap = mmap(NULL, snap_n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	long steps = 0, pairs = 0; 
	for (const char *c = opt(argc, argv, "pairs", "auto:auto"); *c;) {
		size_t l = strcspn(c, ":"); int a = codec_index(c, l); c += l + 1; l = strcspn(c, ":,"); int b = codec_index(c, l), open = 0; c += l; past = -1;
		if (*c == ':') {	// a:b:past, and A or B in capitals when its stream is open
			c++; l = strcspn(c, ":,"); past = codec_index(c, l); c += l; if (past < 0) continue;
			if (*c == ':') { open = c[1] == 'A' ? 1 : 2; c += 2; }
		}
		c += *c == ',';
		if (a < 0 || b < 0 || !cpu_has(a) || !cpu_has(b) || (past > 0 && !cpu_has(past))) continue;
		px = a ? a : b ? b : past > 0 ? past : -2; py = a && b && a != b ? b : past > 0 && past != px ? past : -3;
		if (past > 0 && past != px && past != py) die_("three codecs");
		for (int pa = 0; pa < NPROG; pa++) for (int pb = 0; pb < NPROG; pb++) {
			if ((open == 1 && pa > P_SDEC) || (open == 2 && pb > P_SDEC)) continue;
			fill(&S->A, pa, a, n); fill(&S->B, pb, b, n - 5);
			S->A.open = open == 1; S->B.open = open == 2;
			pairs++;
			if (!two) { pristine(M_ONE); if (S->failed) report(fail); steps += S->steps; continue; }
			// where does A change global memory?  Preempt right before and after.
			S->nchanges = 0; memcpy(snap, __data_start, snap_n);
			pristine(M_COUNT); if (S->failed) report(fail);
			int ks[256], nk = 0;
			for (int i = 0; i < S->nchanges && nk < 12; i++) for (int d = -1; d <= 0; d++) { int k = S->changes[i] + d; if (k > 0 && (!nk || ks[nk - 1] < k)) ks[nk++] = k; }
			for (int i = 0; i < two; i++) ks[nk++] = 1 + (int)(rnd() % (unsigned)(S->steps > 1 ? S->steps : 1));
			for (int i = 0; i < nk; i++) { two_k = ks[i]; pristine(M_TWO); if (S->failed) report(fail); }
			steps += nk;
		}
	}
	long seen = 0; for (int i = 0; i < NOUT; i++) seen += S->seen[i];
	printf("STATS {\"schedules\":%ld,\"points\":%ld,\"pairs\":%ld,\"outcomes_seen\":%ld,\"auto\":%d,\"blocked\":%ld}\n", S->schedules, steps, pairs, seen, auto_id, S->blocked);
	return 0;
}
