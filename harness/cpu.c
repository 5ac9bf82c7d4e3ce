// C08: runs the library's first use on an emulated CPU.  The CPUID and XGETBV
// instructions inside the library (addresses in CPU_PATCH) are replaced by an
// illegal instruction before any constructor runs, and answered from the
// vector in CPU_VEC.  The codec functions are wrapped: entering one is noted
// and the codec itself is not executed.
//
//   cpu drive FILE FAIL    every line of FILE: lvl vl vbmi osx xcr max want
//   cpu probe              (no emulation) prints this CPU's vector, the codec
//                          entered, and whether the results are right
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <ucontext.h>
#include <cpuid.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include "libbase64.h"

static int entered;
static int probing;
#define CODEC(i, arch) \
	extern void __real_base64_stream_encode_##arch(struct base64_state *, const char *, size_t, char *, size_t *); \
	extern int  __real_base64_stream_decode_##arch(struct base64_state *, const char *, size_t, char *, size_t *); \
	void __wrap_base64_stream_encode_##arch(struct base64_state *s, const char *a, size_t n, char *o, size_t *l) { entered = i; if (probing) __real_base64_stream_encode_##arch(s, a, n, o, l); else *l = 0; } \
	int  __wrap_base64_stream_decode_##arch(struct base64_state *s, const char *a, size_t n, char *o, size_t *l) { entered = i; if (probing) return __real_base64_stream_decode_##arch(s, a, n, o, l); *l = 0; return 1; }
SHIM_CODECS

#if defined(__x86_64__)
#define R(n) uc->uc_mcontext.gregs[n]
#define EAX R(REG_RAX)
#define EBX R(REG_RBX)
#define ECX R(REG_RCX)
#define EDX R(REG_RDX)
#define EIP R(REG_RIP)
#else
#define R(n) uc->uc_mcontext.gregs[n]
#define EAX R(REG_EAX)
#define EBX R(REG_EBX)
#define ECX R(REG_ECX)
#define EDX R(REG_EDX)
#define EIP R(REG_EIP)
#endif

static struct { uintptr_t at; char kind; } patch[64]; static int npatch;
static struct { unsigned lvl, vl, vbmi, osx, xcr, max; } V;
static unsigned long long noise = 88172645463325252ull;
static int asked;
static unsigned rnd32(void) { noise ^= noise << 13; noise ^= noise >> 7; noise ^= noise << 17; return (unsigned)(noise >> 16); }
static void say(const char *m) { if (write(1, m, strlen(m)) < 0) _exit(3); }

static void on_ill(int sig, siginfo_t *si, void *p) {
	ucontext_t *uc = p; (void)sig; (void)si;
	uintptr_t at = (uintptr_t)EIP; int k = -1;
	for (int i = 0; i < npatch; i++) if (patch[i].at == at) k = i;
	if (k < 0) { say("illegal instruction outside the emulated ones\n"); _exit(4); }
	asked++;
	if (patch[k].kind == 'x') {
		EIP = (long)(at + 3);
		if (!V.osx) { say("XGETBV executed although the operating system has not enabled XSAVE\n"); _exit(1); }
		EAX = (uint32_t)ECX == 0 ? (V.xcr | 1) : 1; EDX = 0;
		return;
	}
	EIP = (long)(at + 2);
	unsigned leaf = (uint32_t)EAX, sub = (uint32_t)ECX, a = 0, b = 0, c = 0, d = 0;
	if (leaf >= 0x40000000u) { }
	else if (leaf > V.max) a = b = c = d = 0xFFFFFFFFu;
	else switch (leaf) {
	case 0: a = V.max; b = 0x756e6547; d = 0x49656e69; c = 0x6c65746e; break;
	case 1:
		// bits nobody needs are noise, whatever a codec needs is as stated
		c = rnd32() & ~((1u << 0) | (1u << 9) | (1u << 19) | (1u << 20) | (1u << 26) | (1u << 27) | (1u << 28));
		if (V.lvl >= 1) c |= 1u << 0 | 1u << 9;
		if (V.lvl >= 2) c |= 1u << 19;
		if (V.lvl >= 3) c |= 1u << 20;
		if (V.lvl >= 4) c |= 1u << 28 | 1u << 26;
		else c &= ~(1u << 12 | 1u << 29);	// no FMA/F16C without AVX
		if (V.osx) c |= 1u << 27 | 1u << 26;
		a = 0x000906ea; d = 0x078bfbff; b = rnd32();
		break;
	case 7:
		if (sub) break;
		b = rnd32() & ~((1u << 5) | (1u << 16) | (1u << 17) | (1u << 30) | (1u << 31));
		c = rnd32() & ~(1u << 1);
		d = rnd32();
		if (V.lvl >= 5) b |= 1u << 5 | 1u << 3 | 1u << 8;
		if (V.vl) b |= 1u << 31 | 1u << 16;
		if (V.vbmi) { c |= 1u << 1; b |= 1u << 16; }
		if (V.vl && V.vbmi) b |= 1u << 17 | 1u << 30 | 1u << 28;
		else if (V.lvl >= 5 && (V.vl || V.vbmi)) b |= rnd32() & (1u << 17 | 1u << 30);
		a = 0;
		break;
	case 0xD: if (sub == 0) { a = 0xE7; b = c = 2688; } break;
	default: break;
	}
	EAX = (long)(uint32_t)a; EBX = (long)(uint32_t)b; ECX = (long)(uint32_t)c; EDX = (long)(uint32_t)d;
}

static unsigned long num(const char **s, int base) {
	unsigned long v = 0;
	for (;; (*s)++) {
		int c = **s, x = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : 99;
		if (x >= base) break;
		v = v * (unsigned)base + (unsigned)x;
	}
	return v;
}
// Runs before every constructor.
static void pre(int argc, char **argv, char **envp) {
	(void)argc; (void)argv;
	const char *pp = 0, *vv = 0;
	for (; *envp; envp++) {
		if (!strncmp(*envp, "CPU_PATCH=", 10)) pp = *envp + 10;
		if (!strncmp(*envp, "CPU_VEC=", 8)) vv = *envp + 8;
	}
	if (!vv || !pp) return;
	unsigned *f = &V.lvl;
	for (int i = 0; i < 6; i++) { f[i] = (unsigned)num(&vv, 10); if (*vv) vv++; }
	noise += num(&vv, 10) * 2654435761u;
	while (*pp && npatch < 64) {
		uintptr_t a = num(&pp, 16); char k = *++pp; pp++; if (*pp == ',') pp++;
		uintptr_t pg = a & ~(uintptr_t)4095;
		if (mprotect((void *)pg, 8192, PROT_READ | PROT_WRITE | PROT_EXEC)) { say("mprotect failed\n"); _exit(3); }
		((volatile uint8_t *)a)[0] = 0x0F; ((volatile uint8_t *)a)[1] = 0x0B;
		patch[npatch].at = a; patch[npatch++].kind = k;
	}
	struct sigaction sa; memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_ill; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
	sigaction(SIGILL, &sa, 0);
}
__attribute__((section(".preinit_array"), used)) static void (*const pre_p)(int, char **, char **) = pre;

static struct base64_state st, sd;
static char text[64] = "QUJDREVGR0hJSktMTU5PUFFSU1RVVldYWVphYmNkZWZnaGlqa2xtbm9wcXJzdHV2", out[256]; static size_t ol;
static int use(int how) {
	entered = 0;
	switch (how) {
	case 0: base64_stream_encode_init(&st, 0); base64_stream_encode(&st, text, 48, out, &ol); break;
	case 1: base64_stream_decode_init(&sd, 0); base64_stream_decode(&sd, text, 64, out, &ol); break;
	case 2: base64_encode(text, 48, out, &ol, 0); break;
	case 3: base64_decode(text, 64, out, &ol, 0); break;
	}
	return entered;
}
static const char *const name[] = { "none", "plain", "ssse3", "sse41", "sse42", "avx", "avx2", "avx512", "neon32", "neon64" };

int main(int argc, char **argv) {
	char b[256];
	if (getenv("CPU_VEC") || (argc > 1 && !strcmp(argv[1], "probe"))) alarm(60);	// a first use that does not return ends by a signal
	if (getenv("CPU_VEC")) {	// one emulated CPU
		int want = atoi(getenv("CPU_WANT")), first = atoi(getenv("CPU_FIRST"));
		for (int i = 0; i < 4; i++) {
			int got = use((first + i) & 3);
			if (got != want) {
				snprintf(b, sizeof b, "call %d (%s) went through %s; the best safe codec is %s (asked the CPU %d questions)\n", i + 1,
					((const char *[]){ "stream_encode", "stream_decode", "encode", "decode" })[(first + i) & 3], name[got], name[want], asked);
				say(b); return 1;
			}
		}
		return 0;
	}
	if (argc > 1 && !strcmp(argv[1], "probe")) {
		unsigned a, bx, c, d, max = __get_cpuid_max(0, 0), lvl = 0, vl = 0, vbmi = 0, osx = 0, xcr = 0;
		if (max >= 1) {
			__cpuid_count(1, 0, a, bx, c, d);
			unsigned bits[] = { 9, 19, 20, 28 };
			for (lvl = 0; lvl < 4 && (c >> bits[lvl] & 1); lvl++) ;
			for (unsigned i = lvl + 1; i < 4; i++) if (c >> bits[i] & 1) lvl = 9;	// not a CPU of the specification
			osx = c >> 27 & 1;
			if (osx) { unsigned lo, hi; __asm__ volatile("xgetbv" : "=a"(lo), "=d"(hi) : "c"(0)); xcr = lo & 0xE6; }
		}
		if (max >= 7) { __cpuid_count(7, 0, a, bx, c, d); if (bx >> 5 & 1) lvl = lvl == 4 ? 5 : 9; vl = bx >> 31; vbmi = c >> 1 & 1; }
		if (lvl < 5) vl = vbmi = 0;
		probing = 1;
		int id[4], ok = 1;
		for (int i = 0; i < 4; i++) id[i] = use(i);
		// right results as well
		static char big[3000], enc[4100], dec[3100]; size_t el, dl;
		for (int i = 0; i < 3000; i++) big[i] = (char)(i * 37 + i / 11);
		base64_encode(big, 3000, enc, &el, 0);
		ok &= el == 4000 && base64_decode(enc, el, dec, &dl, 0) == 1 && dl == 3000 && !memcmp(big, dec, 3000);
		base64_decode(text, 64, out, &ol, 0); ok &= ol == 48 && !memcmp(out, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuv", 48);
		printf("PROBE %u %u %u %u %u %u ids %d %d %d %d ok %d\n", lvl, vl, vbmi, osx, xcr, max >= 13 ? 13 : max, id[0], id[1], id[2], id[3], ok);
		return 0;
	}
	FILE *f = fopen(argv[2], "r"); if (!f) return 2;
	unsigned v[6], want; long n = 0, per = argc > 4 ? atol(argv[4]) : 1;
	while (fscanf(f, "%u %u %u %u %u %u %u", v, v + 1, v + 2, v + 3, v + 4, v + 5, &want) == 7) {
		for (long k = 0; k < per; k++) {
			char ev[128], ew[32], ef[32]; n++;
			snprintf(ev, sizeof ev, "CPU_VEC=%u %u %u %u %u %u %ld", v[0], v[1], v[2], v[3], v[4], v[5], n);
			snprintf(ew, sizeof ew, "CPU_WANT=%u", want); snprintf(ef, sizeof ef, "CPU_FIRST=%ld", per > 1 ? k : n);
			char pb[4096]; snprintf(pb, sizeof pb, "CPU_PATCH=%s", getenv("CPU_PATCH") ? getenv("CPU_PATCH") : "");
			char *env[] = { ev, ew, ef, pb, NULL }, *av[] = { argv[0], NULL };
			int fd[2]; if (pipe(fd)) return 2;
			pid_t p = fork(); if (p < 0) return 2;
			if (!p) { dup2(fd[1], 1); close(fd[0]); close(fd[1]); execve(argv[0], av, env); _exit(127); }
			close(fd[1]);
			ssize_t l = read(fd[0], b, sizeof b - 1); if (l < 0) l = 0; b[l] = 0; close(fd[0]);
			int s; waitpid(p, &s, 0);
			if (!WIFEXITED(s) || WEXITSTATUS(s)) {
				if (WIFEXITED(s) && (WEXITSTATUS(s) == 3 || WEXITSTATUS(s) == 127)) return 2;
				FILE *o = fopen(argv[3], "w"); if (!o) return 2;
				if (!WIFEXITED(s)) snprintf(b, sizeof b, "ended by signal %d\n", WTERMSIG(s));
				fprintf(o, "%s%s\n%s\n%s\n%s\n", b, ev, ew, ef, pb); fclose(o);
				return 1;
			}
		}
	}
	printf("VECTORS %ld\n", n);
	return 0;
}
