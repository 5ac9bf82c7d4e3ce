// Conformance driver for the command-line tool.
//
//   cli encode|decode  exe=PATH seed=N part=I parts=N scale=N fail=FILE rec=FILE nrec=N [emu=PATH]
//   cli opts           ... list=FILE dir=SCRATCH
//   cli faults         ... sched=FILE
//   cli env            ...
//
// The expected output of every run comes from the transducers exported from
// B64.tla (spec_tables.h) and Cli.tla (cli_tables.h).  Exit codes as drv.c.
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <signal.h>
#include <spawn.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <limits.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <termios.h>
#ifdef __x86_64__
#include <sys/ptrace.h>
#include <sys/prctl.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/syscall.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#endif
#include "spec_tables.h"
#include "cli_tables.h"

// ---------------------------------------------------------------- utilities
static uint64_t rs[2];
static uint64_t splitmix(uint64_t *x) {
	uint64_t z = (*x += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
static void rseed(uint64_t s) { rs[0] = splitmix(&s); rs[1] = splitmix(&s); }
static inline uint64_t rnd(void) {
	uint64_t a = rs[0], b = rs[1];
	rs[0] = b; a ^= a << 23; rs[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
	return rs[1] + b;
}
static size_t below(size_t n) { return n ? (size_t)(rnd() % n) : 0; }
static void die(const char *m) { fprintf(stderr, "cli: %s (%s)\n", m, strerror(errno)); exit(2); }
static int g_argc; static char **g_argv;
static const char *arg(const char *k, const char *def) {
	size_t l = strlen(k);
	for (int i = 2; i < g_argc; i++)
		if (!strncmp(g_argv[i], k, l) && g_argv[i][l] == '=') return g_argv[i] + l + 1;
	return def;
}
static long argl(const char *k, long def) { const char *v = arg(k, NULL); return v ? atol(v) : def; }

typedef struct { uint8_t *p; size_t n, cap; } buf;
static void need(buf *b, size_t n) {
	if (b->cap >= n) return;
	b->cap = n + n / 2 + 4096;
	if (!(b->p = realloc(b->p, b->cap))) die("memory");
}
static void put(buf *b, const void *p, size_t n) { need(b, b->n + n); if (n) memcpy(b->p + b->n, p, n); b->n += n; }

// ---------------------------------------------------------------- oracle
enum { STRIP, IGNORE, NONE };
static const char *MODE[] = { "strip", "ignore", "none" };
typedef struct { int decode, mode; size_t w; } conf;	// what the run is to do
typedef struct { buf out; int ok; } result;

static uint8_t *emit(uint8_t *o, size_t w, size_t *col, uint8_t c) {	// WrapStep
	*o++ = c;
	if (w && ++*col == w) { *o++ = '\n'; *col = 0; }
	return o;
}
static uint8_t *emit_end(uint8_t *o, size_t w, size_t col) { if (w && col) *o++ = '\n'; return o; }	// WrapEnd
static void oracle_encode(buf *out, size_t w, const uint8_t *in, size_t n) {
	size_t col = 0; int st = ENC_START;
	out->n = 0; need(out, (n / 3 + 1) * 4 + (w ? ((n / 3 + 1) * 4) / w + 1 : 0) + 8);
	uint8_t *o = out->p;
	for (size_t i = 0; i < n; i++) {
		unsigned k = st * 256 + in[i];
		for (int j = 0; j < enc_outn[k]; j++) o = emit(o, w, &col, enc_out[k][j]);
		st = enc_next[k];
	}
	for (int j = 0; j < enc_finn[st]; j++) o = emit(o, w, &col, enc_fin[st][j]);
	o = emit_end(o, w, col);
	out->n = (size_t)(o - out->p);
}
static int oracle_decode(buf *out, int mode, const uint8_t *in, size_t n) {
	int st = DEC_START;
	out->n = 0; need(out, n + 8);
	for (size_t i = 0; i < n; i++) {
		if (!cli_kept[mode][in[i]]) continue;
		unsigned k = st * 256 + in[i];
		if (dec_out[k] >= 0) out->p[out->n++] = (uint8_t)dec_out[k];
		st = dec_next[k];
	}
	return st != DEC_ERR;
}
static void oracle(result *r, conf c, const uint8_t *in, size_t n) {
	if (c.decode) r->ok = oracle_decode(&r->out, c.mode, in, n);
	else { r->ok = 1; oracle_encode(&r->out, c.w, in, n); }
}
static void oracle_selftest(void) {	// against texts wrapped by TLC
	for (int n = 0; n < SMALL_N; n++) for (int w = 0; w < SMALL_W; w++) {
		uint8_t t[100], *o = t; size_t col = 0;
		for (int i = 0; i < n; i++) o = emit(o, w, &col, 65 + i);
		o = emit_end(o, w, col);
		const int k = n * SMALL_W + w;
		if ((size_t)(o - t) != small_len[k] || memcmp(t, small_text + small_off[k], o - t)) { fprintf(stderr, "the oracle disagrees with Cli.tla at n=%d w=%d\n", n, w); exit(2); }
	}
}

// ---------------------------------------------------------------- running
static const char *g_exe, *g_emu;
static int mem(const char *n) { int f = memfd_create(n, MFD_CLOEXEC); if (f < 0) die("memfd"); return f; }
static void slurp(int fd, buf *b) {
	off_t n = lseek(fd, 0, SEEK_END);
	b->n = 0; need(b, (size_t)n + 1);
	while (b->n < (size_t)n) { ssize_t r = pread(fd, b->p + b->n, n - b->n, b->n); if (r <= 0) die("read back"); b->n += r; }
}
static void fill(int fd, const uint8_t *p, size_t n) { while (n) { ssize_t r = write(fd, p, n); if (r <= 0) die("fill"); p += r; n -= r; } lseek(fd, 0, SEEK_SET); }

typedef struct { int status; buf out, err; } got;	// status: exit status, or 256 + signal
static char *const ENV0[] = { "PATH=/usr/bin:/bin", "LC_ALL=C", NULL };
static char *const ENVP[] = { "PATH=/usr/bin:/bin", "LC_ALL=C", "POSIXLY_CORRECT=1", NULL };

// A tool that does not come to an end is ended, by its own CPU time or by the clock.
static volatile pid_t g_child;
static void on_alarm(int sig) { (void)sig; if (g_child > 0) kill(g_child, SIGKILL); }
static void watch(pid_t pid) {
	struct rlimit l = { 30, 40 };
	prlimit(pid, RLIMIT_CPU, &l, NULL);
	g_child = pid; alarm(120);
}
static int wait_for(pid_t pid, int *st) { int r; while ((r = waitpid(pid, st, 0)) < 0 && errno == EINTR) ; return r; }
static int wait_status(pid_t pid) {
	int s; if (wait_for(pid, &s) < 0) die("wait");
	g_child = 0;
	return WIFEXITED(s) ? WEXITSTATUS(s) : 256 + WTERMSIG(s);
}
static int g_sigpipe_ignored;
static pid_t start(char **av, char *const *env, int in, int out, int err, const char *cwd) {
	posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
	if (in >= 0) posix_spawn_file_actions_adddup2(&fa, in, 0); else posix_spawn_file_actions_addclose(&fa, 0);
	if (out >= 0) posix_spawn_file_actions_adddup2(&fa, out, 1); else posix_spawn_file_actions_addclose(&fa, 1);
	posix_spawn_file_actions_adddup2(&fa, err, 2);
	if (cwd) posix_spawn_file_actions_addchdir_np(&fa, cwd);
	char *v[40]; int n = 0;
	if (g_emu) v[n++] = (char *)g_emu;
	v[n++] = (char *)g_exe;
	for (int i = 0; av[i]; i++) v[n++] = av[i];
	v[n] = NULL;
	posix_spawnattr_t at; posix_spawnattr_init(&at);
	sigset_t d; sigemptyset(&d); if (!g_sigpipe_ignored) sigaddset(&d, SIGPIPE);
	posix_spawnattr_setsigdefault(&at, &d); posix_spawnattr_setflags(&at, POSIX_SPAWN_SETSIGDEF);
	pid_t pid; int e = posix_spawn(&pid, v[0], &fa, &at, v, env);
	if (e) { errno = e; die("spawn"); }
	posix_spawn_file_actions_destroy(&fa); posix_spawnattr_destroy(&at);
	watch(pid);
	return pid;
}
// Input and output through files that exist only in memory.
static void run_files(got *g, char **av, char *const *env, const uint8_t *in, size_t n, const char *cwd) {
	static int fi = -1, fo, fe;
	if (fi < 0) { fi = mem("in"); fo = mem("out"); fe = mem("err"); }
	if (ftruncate(fi, 0) || ftruncate(fo, 0) || ftruncate(fe, 0)) die("truncate");
	lseek(fi, 0, SEEK_SET); lseek(fo, 0, SEEK_SET); lseek(fe, 0, SEEK_SET);
	fill(fi, in, n);
	pid_t pid = start(av, env, fi, fo, fe, cwd);
	g->status = wait_status(pid);
	slurp(fo, &g->out); slurp(fe, &g->err);
}
// Input and output through pipes, fed and drained in odd pieces.
static void run_pipes(got *g, char **av, char *const *env, const uint8_t *in, size_t n, int nonblock) {
	int pi[2], po[2], fe = mem("err");
	if (pipe2(pi, O_CLOEXEC) || pipe2(po, O_CLOEXEC)) die("pipe");
	fcntl(po[1], F_SETPIPE_SZ, 4096);
	if (nonblock) fcntl(po[1], F_SETFL, O_NONBLOCK);
	pid_t pid = start(av, env, pi[0], po[1], fe, NULL);
	close(pi[0]); close(po[1]);
	fcntl(pi[1], F_SETFL, O_NONBLOCK);
	g->out.n = 0; size_t off = 0; int openin = 1;
	if (off == n) { close(pi[1]); openin = 0; }
	for (;;) {
		struct pollfd f[2] = { { po[0], POLLIN, 0 }, { openin ? pi[1] : -1, POLLOUT, 0 } };
		int pr = poll(f, 2, 20000);
		if (pr < 0) { if (errno == EINTR) continue; die("poll"); }
		if (pr == 0) { kill(pid, SIGKILL); g->status = 999; break; }
		if (f[0].revents) {
			uint8_t t[3000]; ssize_t r = read(po[0], t, 1 + below(sizeof t));
			if (r <= 0) { g->status = wait_status(pid); break; }
			put(&g->out, t, r);
		}
		if (openin && f[1].revents) {
			size_t k = 1 + below(3000); if (k > n - off) k = n - off;
			ssize_t r = write(pi[1], in + off, k);
			if (r > 0) off += r;
			if (off == n || (r < 0 && errno != EAGAIN)) { close(pi[1]); openin = 0; }
		}
	}
	if (openin) close(pi[1]);
	close(po[0]);
	slurp(fe, &g->err); close(fe);
}

// ---------------------------------------------------------------- reporting
static uint64_t nruns, nbytes, nok, nbad, nrecs, nhelp, nerr, ncalls, nfaulted;
static FILE *g_rec; static long g_nrec;
static void hex(FILE *f, const char *name, const uint8_t *p, size_t n) {
	fprintf(f, "%s (%zu bytes): ", name, n);
	for (size_t i = 0; i < n && i < 65536; i++) fprintf(f, "%02x", p[i]);
	fprintf(f, n > 65536 ? "...\n" : "\n");
}
static void fail(char **av, const uint8_t *in, size_t n, const result *r, const got *g, const char *fmt, ...) {
	FILE *f = fopen(arg("fail", "/dev/stderr"), "w");
	va_list ap; va_start(ap, fmt);
	fprintf(f, "# "); vfprintf(f, fmt, ap); fprintf(f, "\n"); va_end(ap);
	fprintf(f, "argv:"); for (int i = 0; av[i]; i++) fprintf(f, " '%s'", av[i]); fprintf(f, "\n");
	if (g) fprintf(f, "status: %d\n", g->status);
	hex(f, "input", in, n);
	if (r) { fprintf(f, "accepted: %d\n", r->ok); hex(f, "expected", r->out.p, r->out.n); }
	if (g) { hex(f, "output", g->out.p, g->out.n); fprintf(f, "stderr: %.*s\n", (int)g->err.n, g->err.p); }
	fclose(f);
	exit(1);
}
static void judge(char **av, conf c, const uint8_t *in, size_t n, const result *r, const got *g) {
	nruns++; nbytes += n;
	size_t m = g->out.n;
	if (r->ok) {
		nok++;
		if (g->status != 0) fail(av, in, n, r, g, "exit status %d instead of 0 (stderr: %.*s)", g->status, (int)g->err.n, g->err.p);
		size_t i = 0; while (i < m && i < r->out.n && g->out.p[i] == r->out.p[i]) i++;
		if (m != r->out.n || i != m) fail(av, in, n, r, g, "output differs from the specification's at offset %zu (lengths %zu, %zu)", i, m, r->out.n);
	} else {
		nbad++;
		if (g->status != 1) fail(av, in, n, r, g, "exit status %d instead of 1 for malformed input", g->status);
		if (m > r->out.n || memcmp(g->out.p, r->out.p, m)) fail(av, in, n, r, g, "output on malformed input is not a prefix of what it decodes to");
	}
	if (g_rec && n + m < 400 && (long)nrecs < g_nrec && (nruns % 13 == 0 || nruns < 20)) {
		nrecs++;
		fprintf(g_rec, "{\"decode\":%s,\"mode\":\"%s\",\"w\":%zu,\"status\":%d,\"in\":[", c.decode ? "true" : "false", c.decode ? MODE[c.mode] : "", c.w > 100000 ? (size_t)100000 : c.w, g->status);
		for (size_t i = 0; i < n; i++) fprintf(g_rec, i ? ",%d" : "%d", in[i]);
		fprintf(g_rec, "],\"out\":[");
		for (size_t i = 0; i < m; i++) fprintf(g_rec, i ? ",%d" : "%d", g->out.p[i]);
		fprintf(g_rec, "]}\n");
	}
}
static long g_part, g_parts, g_k;
static int mine(void) { return g_k++ % g_parts == g_part; }

// One run; how: 0 files, 1 pipes, 2 operand file.
static void one(conf c, const uint8_t *in, size_t n, int how) {
	static result r; static got g;
	char wbuf[40]; char *av[8]; int k = 0;
	if (c.decode) {
		av[k++] = "-d";
		if (c.mode == IGNORE) av[k++] = "-i";
		if (c.mode == NONE) av[k++] = "-n";
	} else if (c.w != 76 || (n & 1)) {
		snprintf(wbuf, sizeof wbuf, "-w%zu", c.w); av[k++] = wbuf;
	}
	char path[64] = ""; int ff = -1;
	if (how == 2) { ff = mem("operand"); fcntl(ff, F_SETFD, 0); fill(ff, in, n); snprintf(path, sizeof path, "/proc/self/fd/%d", ff); av[k++] = path; }
	av[k] = NULL;
	oracle(&r, c, in, n);
	if (how == 1) run_pipes(&g, av, ENV0, in, n, 0);
	else if (how == 2) run_files(&g, av, ENV0, (const uint8_t *)"no such input!", 14, NULL);
	else run_files(&g, av, ENV0, in, n, NULL);
	if (ff >= 0) close(ff);
	judge(av, c, in, n, &r, &g);
}
// The same with other kinds of files: input that begins in the middle of a
// file, output at a file's end or middle, sockets, a terminal, a pipe or the
// tool's own program file as operand; in an environment full of variables.
static char *const ENVV[] = { "PATH=/usr/bin:/bin", "COLUMNS=40", "LINES=3", "TERM=xterm", "LC_ALL=en_US.UTF-8", "LANG=tr_TR.UTF-8", "HOME=/nonexistent",
	"COLS=33", "WIDTH=22", "WRAP=11", "BASE64_WRAP=9", "BASE64=1", "LINE_LENGTH=5", "DEBUG=1", "VERBOSE=1", NULL };
enum { IN_MIDDLE, OUT_MIDDLE, OUT_APPEND, OP_PIPE, IN_SOCKET, OUT_TTY, OUT_SOCKET, OP_SELF, PLACES };
static void place(conf c, const uint8_t *in, size_t n, int where) {
	static result r; static got g; static buf self;
	char wbuf[40]; char *av[8]; int k = 0;
	if (c.decode) { av[k++] = "-d"; if (c.mode == IGNORE) av[k++] = "-i"; if (c.mode == NONE) av[k++] = "-n"; }
	else if (c.w != 76) { snprintf(wbuf, sizeof wbuf, "-w%zu", c.w); av[k++] = wbuf; }
	char path[4200] = ""; int fi = mem("in"), fo = mem("out"), fe = mem("err"), x[2] = { -1, -1 }, sp = -1, drain = -1, junk = 0;
	fill(fi, in, n);
	switch (where) {
	case IN_MIDDLE:
		junk = 1 + (int)below(5000);
		if (ftruncate(fi, 0)) die("truncate");
		for (int i = 0; i < junk; i++) if (write(fi, "QUJD" + i % 4, 1) != 1) die("fill");
		{ const uint8_t *p = in; size_t m = n; while (m) { ssize_t w = write(fi, p, m); if (w <= 0) die("fill"); p += w; m -= w; } }
		lseek(fi, junk, SEEK_SET); break;
	case OUT_MIDDLE: case OUT_APPEND:
		junk = 1 + (int)below(5000);
		for (int i = 0; i < junk; i++) if (write(fo, "#", 1) != 1) die("fill");
		if (where == OUT_APPEND) { snprintf(path, sizeof path, "/proc/self/fd/%d", fo); sp = open(path, O_WRONLY | O_APPEND | O_CLOEXEC); if (sp < 0) die("append"); path[0] = 0; }
		break;
	case OP_PIPE:
		if (pipe(x)) die("pipe");
		if (n > 60000 && fcntl(x[1], F_SETPIPE_SZ, 1 << 20) < 0) goto out;
		fcntl(x[1], F_SETFL, O_NONBLOCK);
		if (n && write(x[1], in, n) != (ssize_t)n) goto out;
		close(x[1]); x[1] = -1;
		if (ftruncate(fi, 0) || write(fi, "no such input!", 14) != 14) die("fill");
		lseek(fi, 0, SEEK_SET);
		snprintf(path, sizeof path, "/proc/self/fd/%d", x[0]); av[k++] = path; break;
	case IN_SOCKET:
		if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, x)) die("socketpair");
		{ int z = 1 << 20; setsockopt(x[1], SOL_SOCKET, SO_SNDBUF, &z, sizeof z); }
		fcntl(x[1], F_SETFL, O_NONBLOCK);
		{ size_t off = 0; while (off < n) { size_t m = 1 + below(2000); if (m > n - off) m = n - off; ssize_t w = write(x[1], in + off, m); if (w <= 0) goto out; off += w; } }
		shutdown(x[1], SHUT_WR); break;
	case OUT_SOCKET:
		if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, x)) die("socketpair");
		sp = x[1]; x[1] = -1; drain = x[0]; break;
	case OUT_TTY: {
		if ((x[0] = posix_openpt(O_RDWR | O_NOCTTY | O_CLOEXEC)) < 0 || grantpt(x[0]) || unlockpt(x[0])) goto out;
		const char *nm = ptsname(x[0]); if (!nm || (sp = open(nm, O_RDWR | O_NOCTTY | O_CLOEXEC)) < 0) goto out;
		struct termios tm; if (tcgetattr(sp, &tm)) goto out; cfmakeraw(&tm); if (tcsetattr(sp, TCSANOW, &tm)) goto out;
		drain = x[0]; break; }
	case OP_SELF: {
		int f = open(g_exe, O_RDONLY | O_CLOEXEC); if (f < 0 || g_emu || c.decode) { if (f >= 0) close(f); goto out; }
		if (!self.n) slurp(f, &self); close(f);
		if (self.n > (8u << 20)) goto out;
		in = self.p; n = self.n; av[k++] = (char *)g_exe;
		if (ftruncate(fi, 0)) die("truncate"); break; }
	}
	av[k] = NULL;
	oracle(&r, c, in, n);
	pid_t pid = start(av, ENVV, where == IN_SOCKET ? x[0] : fi, sp >= 0 ? sp : fo, fe, NULL);
	if (drain >= 0) {
		close(sp); sp = -1; g.out.n = 0;
		for (;;) { uint8_t t[3000]; ssize_t l = read(drain, t, sizeof t); if (l < 0 && errno == EINTR) continue; if (l <= 0) break; put(&g.out, t, l); }
		g.status = wait_status(pid);
	} else {
		g.status = wait_status(pid); slurp(fo, &g.out);
		if (where == OUT_MIDDLE || where == OUT_APPEND) {
			for (int i = 0; i < junk; i++) if ((size_t)i >= g.out.n || g.out.p[i] != '#') { slurp(fe, &g.err); fail(av, in, n, &r, &g, "what was in the output file before is damaged at offset %d", i); }
			memmove(g.out.p, g.out.p + junk, g.out.n - junk); g.out.n -= junk;
		}
	}
	slurp(fe, &g.err);
	judge(av, c, in, n, &r, &g);
out:
	close(fi); close(fo); close(fe); if (sp >= 0) close(sp); for (int i = 0; i < 2; i++) if (x[i] >= 0) close(x[i]);
}
static uint8_t *rndbytes(size_t n) {
	static buf b; need(&b, n + 8);
	size_t i = 0; for (; i + 8 <= n + 8; i += 8) { uint64_t x = rnd(); memcpy(b.p + i, &x, 8); }
	return b.p;
}
#define BLOCK (1024 * 1024)

// ---------------------------------------------------------------- sweeps
static size_t pick_w(void) {
	static const size_t W[] = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 57, 60, 63, 64, 65, 72, 75, 76, 77, 78, 79, 80, 100, 127, 128, 511, 512, 513, 1023, 1024, 1025, 4096, 65536, LONG_MAX,
		255, 256, 257, 332, 65535, 65537, 65612, 16777216 + 76, INT_MAX, (size_t)INT_MAX + 1, (size_t)INT_MAX + 77, UINT_MAX, (size_t)UINT_MAX + 1, (size_t)UINT_MAX + 2, (size_t)UINT_MAX + 77, LONG_MAX - 1 };
	size_t w = below(3) ? W[below(sizeof W / sizeof W[0])] : 1 + below(below(2) ? 90 : 3000);
	return w > INT_MAX && argl("bits", 64) < 64 ? INT_MAX : w;	// no such width there
}
static void sweep_encode(int scale, int small) {
	conf c = { 0, 0, 76 };
	int maxn = small ? 80 : 320;
	// every short length at the default width and at others
	for (int n = 0; n <= maxn; n++) for (int k = 0; k < (small ? 1 : 4 + scale); k++) {
		c.w = k == 0 ? 76 : pick_w();
		uint8_t *p = rndbytes(n);
		if (mine()) one(c, p, n, n % 17 == 0 ? 2 : 0);
	}
	// every width with a text of a few lines, ending on and next to a line's end
	for (size_t w = 1; w <= (size_t)(small ? 20 : 160); w++) for (int d = -1; d <= 1; d++) {
		size_t len = w * (1 + below(4)) + d, n = len / 4 * 3 + below(3);
		c.w = w; uint8_t *p = rndbytes(n);
		if (mine()) one(c, p, n, 0);
	}
	// around full vector arrays (512 lines of w characters and a newline each)
	for (int k = 0; k < (small ? 10 : 160 * scale); k++) {
		size_t w = k < 40 ? (size_t)k + 1 : 1 + below(below(2) ? 100 : 2800), lines = 512 * (1 + below(3));
		long len = (long)(w * lines) + (long)below(4 * w + 9) - (long)(2 * w + 4);
		size_t n = len > 0 ? (size_t)len / 4 * 3 + below(4) : 0;
		c.w = w; uint8_t *p = rndbytes(n);
		if (mine()) one(c, p, n, 0);
	}
	// around the internal block
	static const size_t WB[] = { 76, 0, 1, 3, 75, 77, 1000, BLOCK / 3 * 4, BLOCK / 3 * 4 + 1, BLOCK / 3 * 4 + 4, BLOCK, LONG_MAX };
	for (int b = 1; b <= (small ? 1 : 3); b++) for (int d = -4; d <= 4; d++) for (int k = 0; k < (small ? 1 : 3 + scale); k++) {
		size_t n = (size_t)b * BLOCK + d;
		c.w = k == 0 ? 76 : below(4) ? WB[below(sizeof WB / sizeof WB[0])] : pick_w();
		if (c.w > INT_MAX && argl("bits", 64) < 64) c.w = INT_MAX;
		uint8_t *p = rndbytes(n);
		if (mine()) one(c, p, n, k == 2 ? 2 : 0);
	}
	// around the sizes that buffers tend to have
	for (int k = 9; k <= 21; k++) for (int d = -1; d <= 1; d++) for (int v = 0; v < (small ? 1 : 3); v++) {
		size_t n = v == 2 ? 4096 * (1 + below(200)) + d : ((size_t)1 << k) + d;
		c.w = v == 0 ? 76 : pick_w(); uint8_t *p = rndbytes(n);
		if (mine()) one(c, p, n, v == 1 ? 1 : 0);
	}
	// several blocks in one piece and in lines
	for (int k = 0; k < 4; k++) {
		static const size_t WS[] = { 0, 76, BLOCK, 5 };
		size_t n = 4 * (size_t)BLOCK + 1 + (size_t)k; c.w = WS[k]; uint8_t *p = rndbytes(n);
		if (mine()) one(c, p, n, k & 1);
	}
	// from and to other kinds of files, in lines of different lengths
	for (int k = 0; k < (small ? 2 * PLACES : 20 * PLACES * scale); k++) {
		int q = k / PLACES;
		size_t n = q < 4 ? (size_t)q * 5 : below(4) ? below(600) : below(q % 3 ? 60000 : 900000);
		c.w = q % 4 == 1 ? 76 : q % 4 == 2 ? 0 : pick_w(); if (small && q == 1) c.w = k & 1 ? 76 : 0;
		uint8_t *p = rndbytes(n);
		if (mine()) place(c, p, n, k % PLACES);
	}
	// any length, through pipes
	for (int k = 0; k < (small ? 10 : 60 * scale); k++) {
		size_t n = below(k % 10 ? 30000 : 2500000);
		c.w = pick_w(); uint8_t *p = rndbytes(n);
		if (mine()) one(c, p, n, 1);
	}
}

// a text of about n bytes' encoding in lines of w, damaged in k places
static size_t text(buf *b, size_t n, size_t w) {
	uint8_t *p = rndbytes(n);
	oracle_encode(b, w, p, n);
	return b->n;
}
static void insert(buf *b, size_t at, uint8_t c) { need(b, b->n + 1); memmove(b->p + at + 1, b->p + at, b->n - at); b->p[at] = c; b->n++; }
static uint8_t odd_char(void) {
	static const uint8_t C[] = { '\n', '\n', '\n', '=', '=', '!', '\r', ' ', 0, '"', '-', '_', 0x80, 0xff, 'A', '/' };
	return below(6) ? C[below(sizeof C)] : (uint8_t)rnd();
}
static void sweep_decode(int scale, int small) {
	conf c = { 1, 0, 0 };
	buf b = { 0 };
	// all words over data, padding, newline, garbage
	static const uint8_t S[] = { 'Q', '=', '\n', '!' };
	for (int len = 0; len <= (small ? 3 : 5); len++) {
		long tot = 1; for (int i = 0; i < len; i++) tot *= 4;
		for (long v = 0; v < tot; v++) for (c.mode = 0; c.mode < 3; c.mode++) {
			b.n = 0; for (long i = 0, x = v; i < len; i++, x /= 4) put(&b, &S[x % 4], 1);
			if (len == 5 && v % 4 == 3 && scale == 1) continue;
			if (mine()) one(c, b.p ? b.p : (uint8_t *)"", b.n, 0);
		}
	}
	// every byte value in, between and after quanta
	for (int ch = 0; ch < 256; ch += small ? 7 : 1) for (c.mode = 0; c.mode < 3; c.mode++) for (int k = 0; k < (small ? 1 : 2 + scale / 2); k++) {
		text(&b, 3 + below(40), 0);
		insert(&b, below(b.n + 1), (uint8_t)ch);
		if (below(3) == 0) insert(&b, below(b.n + 1), (uint8_t)ch);
		if (mine()) one(c, b.p, b.n, 0);
	}
	// texts in lines of any width, a few odd characters anywhere, cut anywhere
	for (int k = 0; k < (small ? 60 : 900 * scale); k++) {
		c.mode = (int)below(3);
		size_t w = c.mode == NONE && below(3) ? 0 : below(4) ? 1 + below(90) : 0;
		text(&b, below(below(3) ? 200 : 5000), w);
		for (size_t m = below(4) ? below(3) : 0; m; m--) insert(&b, below(4) ? b.n - below(b.n < 6 ? b.n + 1 : 6) : below(b.n + 1), odd_char());
		if (below(5) == 0 && b.n) b.n -= 1 + below(b.n < 5 ? b.n : 5);
		if (mine()) one(c, b.p, b.n, below(12) == 0 ? 2 : below(12) == 0 ? 1 : 0);
	}
	// from and to other kinds of files
	for (int k = 0; k < (small ? 16 : 120 * scale); k++) {
		int q = k / OP_SELF; c.mode = q % 3;
		text(&b, q < 3 ? (size_t)q * 9 : below(4) ? below(500) : below(k % 3 ? 45000 : 600000), c.mode == NONE ? 0 : below(3) ? 1 + below(90) : 0);
		if (q > 1 && below(3) == 0) insert(&b, below(b.n + 1), odd_char());
		if (mine()) place(c, b.p, b.n, k % OP_SELF);
	}
	// every word over the four classes across the internal block's end, in every
	// phase of the quantum
	text(&b, BLOCK / 4 * 3 + 3, 0);
	static uint8_t blk0[BLOCK + 64]; memcpy(blk0, b.p, BLOCK);
	for (long v = 0, every = small ? 397 : argl("thin", 1); v < 341 * 4 * 4 * 3; v++) {
		if (v % every != argl("seed", 1) % every || !mine()) continue;
		long x = v / 48, j = v / 12 % 4, r = v / 3 % 4, l = 0, first = 0; c.mode = (int)(v % 3);
		for (long t = 1; x >= first + t; t *= 4) { first += t; l++; }
		if (c.mode == NONE && r) continue;
		b.n = 0; for (long i = 0; i < r; i++) put(&b, (uint8_t *)"\n", 1);
		put(&b, blk0, BLOCK - (size_t)(j + r));
		x -= first; for (long i = 0; i < l; i++, x /= 4) put(&b, &S[x % 4], 1);
		one(c, b.p, b.n, 0);
	}
	// several blocks of good characters, in one piece and in lines
	for (int k = 0; k < 7; k++) {
		c.mode = k % 3;
		text(&b, 4 * (size_t)BLOCK + (size_t)k, k < 3 ? 0 : k == 3 || k == 6 ? 0 : k == 4 ? 76 : 100000);
		if (mine()) one(c, b.p, b.n, k & 1);
	}
	// around the internal block: odd characters, padding, ends and runs of
	// skipped characters at and next to its boundaries
	for (int k = 0; k < (small ? 6 : 130 * scale); k++) {
		c.mode = (int)below(3);
		size_t blk = (1 + below(2)) * (size_t)BLOCK;
		size_t w = c.mode == NONE ? 0 : below(3) ? 1 + below(below(2) ? 5 : 100) : 0;
		int kind = (int)below(6);
		if (kind == 0) {		// ends near the boundary
			text(&b, blk / 4 * 3 + 6, 0); b.n = blk + below(9) - 4;
		} else if (kind == 1) {	// padding near the boundary, then something
			text(&b, blk / 4 * 3 - 3 + below(6), 0);
			size_t extra = below(3); while (extra--) insert(&b, b.n, odd_char());
		} else if (kind == 2) {	// skipped characters push the padding over the boundary
			text(&b, blk / 4 * 3 - 30 + below(30), w);
			size_t at = below(b.n + 1), m = below(60); while (m--) insert(&b, at, c.mode == IGNORE && below(2) ? '!' : '\n');
		} else if (kind == 3) {	// odd characters right at the boundary
			text(&b, blk / 4 * 3 + 3000, w);
			for (size_t m = 1 + below(3); m; m--) insert(&b, blk - 4 + below(9) < b.n ? blk - 4 + below(9) : b.n, odd_char());
		} else if (kind == 4) {	// more than a block of skipped characters
			text(&b, 30 + below(300), w);
			buf r = { 0 }; need(&r, b.n + BLOCK + 10);
			size_t at = below(b.n + 1), m = BLOCK - 5 + below(10);
			memcpy(r.p, b.p, at); memset(r.p + at, '\n', m); memcpy(r.p + at + m, b.p + at, b.n - at);
			b.n = b.n + m; need(&b, b.n); memcpy(b.p, r.p, b.n); free(r.p);
		} else {
			text(&b, blk / 4 * 3 + below(200000), w);
			if (below(2)) insert(&b, below(b.n + 1), odd_char());
		}
		if (mine()) one(c, b.p, b.n, below(8) == 0 ? 1 : 0);
	}
	free(b.p);
}

// ---------------------------------------------------------------- options
// list file: "<posix 0|1> <n outcomes> {E|H|R decode mode w src}... <n args> <hex|-> ..."
static void sweep_opts(void) {
	FILE *f = fopen(arg("list", ""), "r"); if (!f) die("list");
	const char *dir = arg("dir", NULL); if (!dir) die("dir");
	char p[512]; struct { const char *n; buf b; } files[2] = { { "F" }, { "F2" } };
	// two inputs: with newlines only (decodes by default and with -i), with
	// garbage (decodes with -i only); the second operand file is well formed
	// without either.
	static buf in[3]; buf t = { 0 };
	rseed(7);
	text(&t, 150, 40); put(&in[0], t.p, t.n);
	text(&t, 61, 0); insert(&t, 9, '!'); insert(&t, 30, '\n'); put(&in[1], t.p, t.n);
	text(&t, 120, 0); put(&in[2], t.p, t.n);
	for (int i = 0; i < 2; i++) {
		text(&files[i].b, 90 + 11 * i, 30); 
		snprintf(p, sizeof p, "%s/%s", dir, files[i].n);
		int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600); if (fd < 0) die(p);
		fill(fd, files[i].b.p, files[i].b.n); close(fd);
	}
	snprintf(p, sizeof p, "%s/DIR", dir); mkdir(p, 0700);
	static got g; static result r;
	int px, no;
	while (fscanf(f, "%d %d", &px, &no) == 2) {
		struct { char k; conf c; int file; } o[4];
		if (no < 1 || no > 4) die("list: outcomes");
		int runs = 0;
		for (int i = 0; i < no; i++) {
			char k, s[8]; long w;
			if (fscanf(f, " %c", &k) != 1) die("list");
			o[i].k = k;
			if (k == 'R') {
				if (fscanf(f, "%d %d %ld %7s", &o[i].c.decode, &o[i].c.mode, &w, s) != 4) die("list");
				o[i].c.w = w < 0 ? SIZE_MAX / 4 : (size_t)w; o[i].file = s[0] == 'f'; runs = 1;
			}
		}
		char *av[16], tok[16][128]; int na, file = -1;
		if (fscanf(f, "%d", &na) != 1 || na > 14) die("list: arguments");
		for (int i = 0; i < na; i++) {
			char h[256]; if (fscanf(f, "%255s", h) != 1) die("list");
			size_t m = 0;
			if (h[0] != '-') for (; h[2 * m]; m++) { unsigned x; sscanf(h + 2 * m, "%2x", &x); tok[i][m] = (char)x; }
			tok[i][m] = 0; av[i] = tok[i];
			if (!strcmp(tok[i], "F")) file = 0;
			if (!strcmp(tok[i], "F2")) file = 1;
		}
		av[na] = NULL;
		if (!mine()) continue;
		int decode = runs && (o[0].k == 'R' ? o[0].c.decode : o[no - 1].c.decode);
		for (int which = 0; which < (decode ? 3 : 1); which++) {
			run_files(&g, av, px ? ENVP : ENV0, in[which].p, in[which].n, dir);
			nruns++;
			int okay = 0;
			for (int i = 0; i < no && !okay; i++) {
				if (o[i].k == 'E') okay = g.status == 1 && g.out.n == 0 && g.err.n > 0;
				else if (o[i].k == 'H') {
					okay = g.status == 0 && g.err.n == 0;
					static const char *must[] = { "-d", "--decode", "-h", "--help", "-i", "--ignore-garbage", "-n", "--no-strip-newlines", "-w", "--wrap" };
					put(&g.out, "", 1); g.out.n--;
					for (size_t k = 0; k < sizeof must / sizeof must[0]; k++) okay &= strstr((char *)g.out.p, must[k]) != NULL;
				} else {
					if (o[i].file && file < 0) die("list: operand");
					const buf *src = o[i].file ? &files[file].b : &in[which];
					oracle(&r, o[i].c, src->p, src->n);
					okay = r.ok ? g.status == 0 && g.out.n == r.out.n && !memcmp(g.out.p, r.out.p, r.out.n)
						    : g.status == 1 && g.out.n <= r.out.n && !memcmp(g.out.p, r.out.p, g.out.n);
					okay &= !r.ok || g.err.n == 0;
				}
			}
			nhelp += o[0].k == 'H'; nerr += o[0].k == 'E'; nok += o[0].k == 'R';
			if (!okay) fail(av, in[which].p, in[which].n, o[0].k == 'R' ? &r : NULL, &g, "argument vector means %s%s, but exit status %d, %zu bytes of output, %zu of diagnostics",
				o[0].k == 'E' ? "an error" : o[0].k == 'H' ? "the help" : o[0].c.decode ? "decoding" : "encoding",
				px ? " (POSIXLY_CORRECT)" : "", g.status, g.out.n, g.err.n);
		}
	}
	fclose(f);
}

// ---------------------------------------------------------------- faults
#ifdef __x86_64__
enum { W_ALL, W_ONE, W_HALF, W_BUTONE, W_VEC, W_VEC1, W_INTR, W_ZERO, W_EIO, W_NOSPC };
static const char *WN[] = { "all", "one", "half", "butone", "vec", "vec1", "intr", "zero", "eio", "nospc", NULL };
enum { R_ALL, R_ONE, R_HALF, R_INTR, R_EIO };
static const char *RN[] = { "all", "one", "half", "intr", "eio", NULL };
enum { ERRNO = 1000 };	// outcome ERRNO + e: fails with errno e
static int find(const char **t, const char *s) { if (s[0] == 'e' && s[1] >= '0' && s[1] <= '9') return ERRNO + atoi(s + 1); for (int i = 0; t[i]; i++) if (!strcmp(t[i], s)) return i; die("sched: outcome"); return 0; }
typedef struct { int w[8], nw, r[8], nr, wstart, rstart, nomem, nomem_all, persist; } sched;

static buf g_log;
static void logf_(const char *fmt, ...) { char t[160]; va_list ap; va_start(ap, fmt); int k = vsnprintf(t, sizeof t, fmt, ap); va_end(ap); put(&g_log, t, k); }

static int is_input(pid_t pid, int fd, const char *path) {
	if (!path) return fd == 0;
	if (fd < 3) return 0;
	char a[64], b[512]; snprintf(a, sizeof a, "/proc/%d/fd/%d", (int)pid, fd);
	ssize_t n = readlink(a, b, sizeof b - 1); if (n < 0) return 0;
	b[n] = 0; return !strcmp(b, path);
}
// Runs the tool, deciding the outcome of its reads of the input and of its
// writes to standard output; the latter never reach a real descriptor.
static void run_traced(got *g, char **av, int fi, const char *inpath, const result *r, const sched *s, int *fault) {
	static int fo = -1, fe;
	if (fo < 0) { fo = mem("out"); fe = mem("err"); }
	if (ftruncate(fo, 0) || ftruncate(fe, 0)) die("truncate");
	lseek(fo, 0, SEEK_SET); lseek(fe, 0, SEEK_SET); lseek(fi, 0, SEEK_SET);
	g_log.n = 0; logf_("{\"op\":\"start\",\"total\":%zu,\"ok\":%s}\n", r->out.n, r->ok ? "true" : "false");
	g->out.n = 0; *fault = 0;
	char *v[40]; int nv = 0; v[nv++] = (char *)g_exe; for (int i = 0; av[i]; i++) v[nv++] = av[i]; v[nv] = NULL;
	pid_t pid = fork();
	if (pid < 0) die("fork");
	if (pid == 0) {
		dup2(fi, 0); dup2(fo, 1); dup2(fe, 2);
		int nrs[16], k = 0;
		nrs[k++] = SYS_read; nrs[k++] = SYS_readv; nrs[k++] = SYS_write; nrs[k++] = SYS_writev;
		if (s->nomem) { nrs[k++] = SYS_mmap; nrs[k++] = SYS_brk; }
		struct sock_filter f[40]; int n = 0;
		f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
		for (int i = 0; i < k; i++) f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, nrs[i], k - i, 0);
		f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
		f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
		struct sock_fprog fp = { n, f };
		if (ptrace(PTRACE_TRACEME, 0, 0, 0)) _exit(251);
		raise(SIGSTOP);
		if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &fp)) _exit(252);
		execve(v[0], v, ENV0);
		_exit(253);
	}
	watch(pid);
	int st; if (wait_for(pid, &st) < 0 || !WIFSTOPPED(st)) die("ptrace: the child cannot be traced here");
	if (ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESECCOMP | PTRACE_O_TRACEEXEC | PTRACE_O_EXITKILL)) die("ptrace options");
	int nw = 0, nr = 0, nm = 0, execd = 0; long sig = 0; unsigned long long brk0 = 0;
	static buf data;
	for (;;) {
		ptrace(PTRACE_CONT, pid, 0, sig); sig = 0;
		if (wait_for(pid, &st) < 0) die("wait");
		if (WIFEXITED(st) || WIFSIGNALED(st)) { g->status = WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st); break; }
		if (st >> 8 == (SIGTRAP | PTRACE_EVENT_EXEC << 8)) { execd = 1; continue; }
		if (st >> 8 != (SIGTRAP | PTRACE_EVENT_SECCOMP << 8)) { sig = WSTOPSIG(st); continue; }
		if (!execd) continue;
		struct user_regs_struct x; ptrace(PTRACE_GETREGS, pid, 0, &x);
		long nrc = (long)x.orig_rax, ret = 0; int set = 0;
		if (nrc == SYS_mmap || nrc == SYS_brk) {
			// only the tool's own large requests: the loader's are not its business
			if (nrc == SYS_mmap && (!(x.r10 & MAP_ANONYMOUS) || x.rsi < 300000)) continue;
			if (nrc == SYS_brk) { if (!brk0) brk0 = x.rdi; if (x.rdi < brk0 + 300000) { if (x.rdi > brk0) brk0 = x.rdi; continue; } }
			nm++;
			if (nm == s->nomem || (s->nomem_all && nm > s->nomem)) {
				*fault = 1; set = 1; ret = nrc == SYS_mmap ? -ENOMEM : 0; logf_("{\"op\":\"nomem\"}\n");
			}
		} else if (nrc == SYS_read || nrc == SYS_readv) {
			if (!is_input(pid, (int)x.rdi, inpath)) continue;
			int k = nr++ - s->rstart, o = k >= 0 && k < s->nr ? s->r[k] : R_ALL;
			if (s->persist && k >= s->nr && s->nr) o = s->r[s->nr - 1] > R_INTR ? s->r[s->nr - 1] : R_ALL;
			if (nr > 100000) { kill(pid, SIGKILL); continue; }
			if (o >= R_INTR) { set = 1; ret = o >= ERRNO ? ERRNO - o : o == R_INTR ? -EINTR : -EIO; *fault = 1; logf_("{\"op\":\"read\",\"ret\":%ld}\n", ret); }
			else if (nrc == SYS_read && o != R_ALL && x.rdx > 1) { x.rdx = o == R_ONE ? 1 : (x.rdx + 1) / 2; ptrace(PTRACE_SETREGS, pid, 0, &x); logf_("{\"op\":\"read\",\"ret\":%llu}\n", x.rdx); }
		} else {
			if (x.rdi != 1) continue;
			size_t len = 0, first = 0;
			data.n = 0;
			if (nrc == SYS_write) {
				len = first = x.rdx; need(&data, len + 1);
				struct iovec l = { data.p, len }, m = { (void *)x.rsi, len };
				for (size_t at = 0; at < len;) { l.iov_base = data.p + at; l.iov_len = m.iov_len = len - at; m.iov_base = (char *)x.rsi + at; ssize_t q = process_vm_readv(pid, &l, 1, &m, 1, 0); if (q <= 0) break; at += q; data.n = at; }
			} else {
				struct iovec iv[1024], l = { iv, sizeof(struct iovec) * x.rdx }, m = { (void *)x.rsi, sizeof(struct iovec) * x.rdx };
				if (x.rdx > 1024) { set = 1; ret = -EINVAL; goto answer; }
				if (process_vm_readv(pid, &l, 1, &m, 1, 0) != (ssize_t)l.iov_len) { set = 1; ret = -EFAULT; goto answer; }
				for (size_t i = 0; i < x.rdx; i++) len += iv[i].iov_len;
				need(&data, len + 1);
				for (size_t i = 0; i < x.rdx; i++) if (iv[i].iov_len && !first) first = iv[i].iov_len;
				for (size_t i = 0; i < x.rdx;) {	// the whole array at once, then piece by piece
					l.iov_base = data.p + data.n; l.iov_len = len - data.n;
					ssize_t q = process_vm_readv(pid, &l, 1, iv + i, x.rdx - i, 0);
					if (q <= 0) break;
					data.n += q;
					while (i < x.rdx && (size_t)q >= iv[i].iov_len) q -= iv[i++].iov_len;
					if (i < x.rdx) { iv[i].iov_base = (char *)iv[i].iov_base + q; iv[i].iov_len -= q; }
				}
			}
			if (data.n < len) { set = 1; ret = -EFAULT; goto answer; }
			int k = nw++ - s->wstart, o = k >= 0 && k < s->nw ? s->w[k] : W_ALL;
			if (s->persist && k >= s->nw && s->nw && s->w[s->nw - 1] >= W_EIO) o = s->w[s->nw - 1];
			if (nw > 100000) { kill(pid, SIGKILL); continue; }
			set = 1;
			switch (o) {
			case W_ALL: ret = len; break;
			case W_ONE: ret = len ? 1 : 0; break;
			case W_HALF: ret = (len + 1) / 2; break;
			case W_BUTONE: ret = len > 1 ? len - 1 : len; break;
			case W_VEC: ret = first; break;
			case W_VEC1: ret = first + 1 <= len ? first + 1 : first; break;
			case W_INTR: ret = -EINTR; break;
			case W_ZERO: ret = 0; break;
			case W_EIO: ret = -EIO; *fault = 1; break;
			case W_NOSPC: ret = -ENOSPC; *fault = 1; break;
			default: ret = ERRNO - o; *fault = 1; break;
			}
			// does it offer the next bytes of the specification's result?
			size_t w = g->out.n;
			int match = len > 0 && w + len <= r->out.n && !memcmp(r->out.p + w, data.p, len);
			logf_("{\"op\":\"write\",\"off\":%ld,\"len\":%zu,\"ret\":%ld}\n", match ? (long)w : -1L, len, ret);
			if (ret > 0) put(&g->out, data.p, ret);
		}
answer:
		ncalls++;
		if (set) { x.orig_rax = -1; x.rax = (unsigned long long)ret; ptrace(PTRACE_SETREGS, pid, 0, &x); }
	}
	logf_("{\"op\":\"exit\",\"status\":%d}\n", g->status);
	if (g->status >= 251 && g->status <= 253) die("the child cannot be traced here");
	slurp(fe, &g->err);
	buf t = { 0 }; slurp(fo, &t);
	if (t.n) { errno = 0; die("output by a system call this driver does not see"); }
	free(t.p);
}
static void fault_run(conf c, char **av, const uint8_t *in, size_t n, const result *r, int fi, const char *inpath, const sched *s, const char *what) {
	static got g; int fault;
	run_traced(&g, av, fi, inpath, r, s, &fault);
	nruns++; nfaulted += fault;
	const char *why = NULL;
	if (g.out.n > r->out.n || memcmp(g.out.p, r->out.p, g.out.n)) why = "what the kernel accepted is not a prefix of the correct output";
	else if (g.status > 255) why = "the tool was killed by a signal or did not end";
	else if (g.status == 0 && (!r->ok || g.out.n != r->out.n)) why = "exit status 0 with output missing";
	else if (!fault && r->ok && g.status != 0) why = "failed although every call could be retried";
	else if (!fault && !r->ok && g.status != 1) why = "malformed input not reported";
	if (why) fail(av, in, n, r, &g, "%s; kernel schedule %s\n%.*s", why, what, (int)(g_log.n > 6000 ? 6000 : g_log.n), g_log.p);
	if (g_rec && (long)nrecs < g_nrec && g_log.n < 20000 && (nruns % 31 == 0)) { nrecs++; fwrite(g_log.p, 1, g_log.n, g_rec); }
}
static void sweep_faults(int scale, int light) {
	// the configurations: several writes of each kind, lines cut by partial
	// writes, several blocks, malformed input in the second block
	static const struct { conf c; long n; int damage, many, file; } K[] = {
		{ { 0, 0, 76 }, 150, 0, 1, 0 }, { { 0, 0, 0 }, 30, 0, 1, 0 }, { { 0, 0, 1 }, 1200, 0, 1, 0 }, { { 0, 0, 3 }, 2, 0, 1, 0 },
		{ { 0, 0, 5 }, 4400, 0, 1, 1 }, { { 0, 0, 76 }, 0, 0, 1, 0 }, { { 1, STRIP, 0 }, 100, 0, 1, 0 }, { { 1, IGNORE, 0 }, 50, 0, 1, 1 },
		{ { 1, NONE, 0 }, 10, 0, 1, 0 }, { { 1, STRIP, 0 }, 100, 1, 1, 0 }, { { 0, 0, 76 }, BLOCK + 7, 0, 0, 0 }, { { 0, 0, 0 }, 2 * BLOCK, 0, 0, 1 },
		{ { 1, STRIP, 0 }, 3 * BLOCK / 2, 0, 0, 0 }, { { 1, STRIP, 0 }, 3 * BLOCK / 2, 1, 0, 0 }, { { 0, 0, 2000 }, BLOCK - 1, 0, 0, 0 } };
	static struct { char *line; sched s; int depth, err; } S[20000]; int ns = 0;
	FILE *f = fopen(arg("sched", ""), "r"); if (!f) die("sched");
	static char ln[400];
	while (fgets(ln, sizeof ln, f)) {	// "r:one,half w:all,eio"
		if (ns == 20000) die("sched: too many");
		sched *s = &S[ns].s; memset(s, 0, sizeof *s);
		ln[strcspn(ln, "\n")] = 0; S[ns].line = strdup(ln);
		char *rp = ln + 2, *wp = strstr(ln, " w:"); *wp = 0; wp += 3;
		for (char *t = strtok(rp, ","); t; t = strtok(NULL, ",")) s->r[s->nr++] = find(RN, t);
		for (char *t = strtok(wp, ","); t; t = strtok(NULL, ",")) s->w[s->nw++] = find(WN, t);
		S[ns].depth = s->nw + s->nr;
		int e = s->nw ? s->w[s->nw - 1] : s->nr ? s->r[s->nr - 1] : 0;
		S[ns].err = e >= ERRNO ? e - ERRNO : 0; ns++;
	}
	fclose(f);
	buf b = { 0 }; result r = { 0 };
	for (size_t k = 0; k < sizeof K / sizeof K[0]; k++) {
		rseed(1000 + k);
		conf c = K[k].c;
		if (c.decode) { text(&b, K[k].n, c.mode == NONE ? 0 : 60); if (K[k].damage) b.p[b.n - 9] = '*'; if (c.mode == IGNORE) insert(&b, 20, '*'); }
		else { uint8_t *p = rndbytes(K[k].n); b.n = 0; put(&b, p, K[k].n); }
		oracle(&r, c, b.p, b.n);
		char path[512] = "", w[40]; char *av[6]; int na = 0, fi;
		if (c.decode) { av[na++] = "-d"; if (c.mode == IGNORE) av[na++] = "-i"; if (c.mode == NONE) av[na++] = "-n"; }
		else { snprintf(w, sizeof w, "-w%zu", c.w); av[na++] = w; }
		const char *inpath = NULL;
		if (K[k].file) {
			snprintf(path, sizeof path, "%s/operand-%ld-%zu", arg("dir", "/nonexistent"), g_part, k);
			fi = open(path, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600); if (fi < 0) die(path);
			fill(fi, b.p, b.n); close(fi); fi = open("/dev/null", O_RDONLY | O_CLOEXEC); av[na++] = path; inpath = path;
		} else { fi = mem("in"); fill(fi, b.p, b.n); }
		av[na] = NULL;
		for (int i = 0; i < ns; i++) {
			// (a tool that writes each vector by itself makes many calls)
			if (light && (S[i].depth > 2 || (!K[k].many && (S[i].depth > 1 || i % 5 || K[k].c.w == 0)) || (K[k].n > 1000 && S[i].depth > 1 && i % 6))) continue;
			if (!K[k].many && S[i].depth > 2 && (i % 7 || scale < 2)) continue;
			if (!K[k].many && scale < 2 && S[i].depth == 2 && i % 4) continue;
			if (S[i].err && k != 0 && k != 6 && (i + k) % 9 && scale < 2) continue;
			for (int start = 0; start < 3; start++) for (int persist = 0; persist < 2; persist++) {
				// (a call that would block may well be tried again, for ever)
				if (persist && (S[i].err == EAGAIN || S[i].err == ENOBUFS)) continue;
				sched s = S[i].s; char what[300];
				s.wstart = start == 2 ? 3 : start; s.rstart = start; s.persist = persist;
				if (start && S[i].depth > 2 && scale < 2) continue;
				int last = s.nw ? s.w[s.nw - 1] >= W_EIO : 0; last |= s.nr ? s.r[s.nr - 1] > R_INTR : 0;	// (an interrupted call may be tried again, for ever)
				if (persist && !last) continue;
				if (!mine()) continue;
				snprintf(what, sizeof what, "%s (from write %d, read %d on%s)", S[i].line, s.wstart, s.rstart, persist ? ", the last outcome persisting" : "");
				fault_run(c, av, b.p, b.n, &r, fi, inpath, &s, what);
			}
		}
		// memory: each allocation call fails, alone or with all later ones
		if (k == 0 || k == 6) for (int m = 1; m <= 12; m++) for (int all = 0; all < 2; all++) {
			if (!mine()) continue;
			sched s = { .nomem = m, .nomem_all = all }; char what[80];
			snprintf(what, sizeof what, "memory request %d%s refused", m, all ? " and all later ones" : "");
			fault_run(c, av, b.p, b.n, &r, fi, inpath, &s, what);
		}
		close(fi);
		if (path[0]) unlink(path);
	}
}
#endif

// ---------------------------------------------------------------- real failures
static void env_case(const char *what, conf c, char **av, const uint8_t *in, size_t n, int fi, int fo, size_t have, int limit) {
	static result r; static got g; oracle(&r, c, in, n);
	int fe = mem("err");
	struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old);
	void (*sx)(int) = signal(SIGXFSZ, SIG_IGN);
	if (limit >= 0) { lim = old; lim.rlim_cur = (rlim_t)limit; setrlimit(RLIMIT_FSIZE, &lim); }
	pid_t pid = start(av, ENV0, fi, fo, fe, NULL);
	g.status = wait_status(pid);
	if (limit >= 0) setrlimit(RLIMIT_FSIZE, &old);
	signal(SIGXFSZ, sx);
	g.out.n = 0;
	if (have) slurp(fo, &g.out);
	slurp(fe, &g.err); close(fe);
	nruns++; nfaulted++;
	const char *why = NULL;
	if (g.out.n > r.out.n || memcmp(g.out.p, r.out.p, g.out.n)) why = "what was written is not a prefix of the correct output";
	else if (g.status == 0) why = "exit status 0 although output or input was lost";
	else if (g.status > 255 && g.status != 256 + SIGPIPE) why = "killed by a signal";
	else if (g.status < 256 && !g.err.n) why = "no diagnostic";
	if (why) fail(av, in, n, &r, &g, "%s: %s", what, why);
}
static void sweep_env(void) {
	buf b = { 0 };
	for (int k = 0; k < 40; k++) {
		conf c = { k & 1, STRIP, 76 };
		size_t n = 1 + below(k % 4 ? 3000 : 1500000);
		if (c.decode) text(&b, n, 76); else { uint8_t *p = rndbytes(n); b.n = 0; put(&b, p, n); }
		char *av[4] = { c.decode ? "-d" : "-w76", NULL };
		int fi = mem("in"); fill(fi, b.p, b.n);
		int full = open("/dev/full", O_WRONLY | O_CLOEXEC);
		if (full >= 0) { env_case("full device", c, av, b.p, b.n, fi, full, 0, -1); close(full); }
		static result r; oracle(&r, c, b.p, b.n);
		for (int j = 0; j < 4 && r.out.n; j++) {
			char path[512]; snprintf(path, sizeof path, "%s/limited", arg("dir", "/nonexistent"));
			int fo = open(path, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600); if (fo < 0) die(path);
			lseek(fi, 0, SEEK_SET);
			env_case("file size limit", c, av, b.p, b.n, fi, fo, 1, (int)(j == 0 ? r.out.n - 1 : below(r.out.n)));
			close(fo); unlink(path);
		}
		lseek(fi, 0, SEEK_SET);
		env_case("closed output", c, av, b.p, b.n, fi, -1, 0, -1);
		int p[2]; if (pipe2(p, O_CLOEXEC)) die("pipe");
		close(p[0]); lseek(fi, 0, SEEK_SET);
		env_case("broken pipe", c, av, b.p, b.n, fi, p[1], 0, -1);
		lseek(fi, 0, SEEK_SET); g_sigpipe_ignored = 1;
		env_case("broken pipe, SIGPIPE ignored", c, av, b.p, b.n, fi, p[1], 0, -1);
		g_sigpipe_ignored = 0; close(p[1]);
		int fo = mem("out");
		env_case("closed input", c, av, b.p, b.n, -1, fo, 1, -1); 
		if (ftruncate(fo, 0)) die("truncate");
		lseek(fo, 0, SEEK_SET);
		int d = open("/", O_RDONLY | O_CLOEXEC | O_DIRECTORY);
		env_case("input is a directory", c, av, b.p, b.n, d, fo, 1, -1); close(d);
		// a peer that sends a part and resets the connection
		int s[2]; if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, s)) die("socketpair");
		size_t part = b.n < 4000 ? b.n : 4000;
		if (write(s[1], b.p, part) != (ssize_t)part) die("socket");
		if (write(s[0], "x", 1) != 1) die("socket");	// unread data at close: reset
		close(s[1]);
		if (ftruncate(fo, 0)) die("truncate");
		lseek(fo, 0, SEEK_SET);
		env_case("input connection reset", c, av, b.p, b.n, s[0], fo, 1, -1); close(s[0]);
		close(fo); close(fi);
	}
}

// ---------------------------------------------------------------- beyond 32 bits
// Streams of more than 4 GiB, produced and compared piece by piece.  Contents
// repeat with a period of whole groups; LenMC shows that the texts then do so too.
#define PER 300009
static uint8_t *per_b; static buf per_t;
typedef struct { int text, nl; uint64_t at, total, w, col; uint8_t tail[8]; uint64_t body; } gen;
static void gen_init(gen *g, int text, uint64_t n, uint64_t w) {
	if (!per_b) { rseed(99); per_b = malloc(PER); memcpy(per_b, rndbytes(PER), PER); oracle_encode(&per_t, 0, per_b, PER); }
	memset(g, 0, sizeof *g); g->text = text; g->w = w; g->total = n;
	if (text) {
		static buf t; t.n = 0; g->body = n / 3 * 4; oracle_encode(&t, 0, per_b + n / 3 * 3 % PER, n % 3);
		memcpy(g->tail, t.p, t.n); g->total = g->body + t.n;
	}
}
static size_t gen_next(gen *g, const uint8_t **p) {	// the next piece, 0 at the end
	size_t k;
	if (!g->text) {
		if (g->at == g->total) return 0;
		k = PER - g->at % PER; if (k > g->total - g->at) k = g->total - g->at;
		*p = per_b + g->at % PER; g->at += k; return k;
	}
	if (g->w && (g->col == g->w || (g->at == g->total && g->col))) { g->col = 0; *p = (const uint8_t *)"\n"; return 1; }
	if (g->at == g->total) return 0;
	if (g->at < g->body) { k = per_t.n - g->at % per_t.n; if (k > g->body - g->at) k = g->body - g->at; *p = per_t.p + g->at % per_t.n; }
	else { k = g->total - g->at; *p = g->tail + (g->at - g->body); }
	if (g->w && k > g->w - g->col) k = g->w - g->col;
	g->at += k; g->col += k; return k;
}
// the same bytes as the oracle, on lengths that it can do at once
static void gen_selftest(void) {
	static const uint64_t W[] = { 0, 1, 76, 77, 400011, 400012, 1000000 };
	for (int k = 0; k < 7; k++) for (int d = 0; d < 3; d++) {
		gen g; size_t n = 2 * PER + 30 + d; gen_init(&g, 1, n, W[k]);
		uint8_t *in = malloc(n); for (size_t i = 0; i < n; i++) in[i] = per_b[i % PER];
		buf o = { 0 }; oracle_encode(&o, W[k], in, n);
		const uint8_t *p; size_t q, at = 0;
		while ((q = gen_next(&g, &p))) { if (at + q > o.n || memcmp(p, o.p + at, q)) { fprintf(stderr, "the generator disagrees with the oracle\n"); exit(2); } at += q; }
		if (at != o.n) { fprintf(stderr, "the generator disagrees with the oracle\n"); exit(2); }
		free(in); free(o.p);
	}
}
static void long_case(int decode, int mode, uint64_t n, uint64_t w, uint64_t damage) {
	if (w >> 31 && argl("bits", 64) < 64) return;	// no such width there
	if (!mine()) return;
	char wa[40]; char *av[4]; int na = 0;
	if (decode) { av[na++] = "-d"; if (mode == IGNORE) av[na++] = "-i"; if (mode == NONE) av[na++] = "-n"; } else { snprintf(wa, sizeof wa, "-w%llu", (unsigned long long)w); av[na++] = wa; }
	av[na] = NULL;
	gen in, out; gen_init(&in, decode, n, w); gen_init(&out, !decode, n, w);
	int pi[2], po[2], fe = mem("err");
	if (pipe2(pi, O_CLOEXEC) || pipe2(po, O_CLOEXEC)) die("pipe");
	fcntl(pi[0], F_SETPIPE_SZ, 1 << 20); fcntl(po[1], F_SETPIPE_SZ, 1 << 20);
	pid_t pid = start(av, ENV0, pi[0], po[1], fe, NULL);
	struct rlimit l = { 300, 310 }; prlimit(pid, RLIMIT_CPU, &l, NULL); alarm(500);
	pid_t feeder = fork(); if (feeder < 0) die("fork");
	if (!feeder) {
		signal(SIGPIPE, SIG_IGN); close(po[0]); close(po[1]); close(pi[0]);
		static uint8_t b[1 << 20]; size_t k = 0; uint64_t off = 0; const uint8_t *p; size_t q;
		do {
			q = gen_next(&in, &p);
			for (size_t i = 0; i < q || (!q && k);) {
				size_t m = q - i < sizeof b - k ? q - i : sizeof b - k;
				memcpy(b + k, p + i, m); k += m; i += m;
				if (k == sizeof b || !q) {
					if (damage && damage >= off && damage < off + k) b[damage - off] = '!';
					for (size_t z = 0; z < k;) { ssize_t r = write(pi[1], b + z, k - z); if (r <= 0) _exit(0); z += r; }
					off += k; k = 0; if (!q) break;
				}
			}
		} while (q);
		_exit(0);
	}
	close(pi[0]); close(pi[1]); close(po[1]);
	static uint8_t b[1 << 20]; uint64_t got_n = 0; const uint8_t *p = NULL; size_t have = 0; int bad = 0;
	for (;;) {
		ssize_t r = read(po[0], b, sizeof b);
		if (r < 0 && errno == EINTR) continue;
		if (r <= 0) break;
		for (ssize_t i = 0; i < r && !bad;) {
			if (!have) have = gen_next(&out, &p);
			if (!have) { bad = 1; break; }
			size_t m = have < (size_t)(r - i) ? have : (size_t)(r - i);
			if (memcmp(p, b + i, m)) { while (*p == b[i]) { p++; i++; got_n++; } bad = 1; break; }
			i += m; p += m; have -= m; got_n += m;
		}
		if (bad) { kill(pid, SIGKILL); break; }
	}
	close(po[0]);
	got g = { 0 }; g.status = wait_status(pid); alarm(0);
	kill(feeder, SIGKILL); int fs; while (waitpid(feeder, &fs, 0) < 0 && errno == EINTR) ;
	slurp(fe, &g.err); close(fe);
	nruns++; nbytes += n;
	int rest = have || gen_next(&out, &p);
	const uint8_t *none = (const uint8_t *)"";
	if (bad) fail(av, none, 0, NULL, &g, "a stream of %llu bytes in: output differs at offset %llu", (unsigned long long)n, (unsigned long long)got_n);
	if (!damage && (g.status || rest)) fail(av, none, 0, NULL, &g, "a stream of %llu bytes in: exit status %d, output ends %s at %llu", (unsigned long long)n, g.status, rest ? "early" : "right", (unsigned long long)got_n);
	if (damage && g.status != 1) fail(av, none, 0, NULL, &g, "damage at offset %llu of a long stream: exit status %d", (unsigned long long)damage, g.status);
	if (damage) nbad++; else nok++;
}
static void sweep_long(int scale) {
	gen_selftest();
	const uint64_t G = 1ull << 32;
	const char *what = arg("what", "encode");
	if (!strcmp(what, "encode")) {
		long_case(0, 0, G + 100000, 76, 0);
		long_case(0, 0, 3 * G / 4 + 2000001, 0, 0);
		long_case(0, 0, 3 * G / 4 + 100001, G + 4, 0);
		if (scale > 1) { long_case(0, 0, 2 * G + 100001, 76, 0); long_case(0, 0, G + 100001, 1, 0); long_case(0, 0, G + 2, 0, 0); long_case(0, 0, 2 * G, G - 1, 0); long_case(0, 0, G + BLOCK + 1, G + BLOCK, 0); }
	} else {
		long_case(1, STRIP, 3 * G / 4 + 100000, 76, 0);
		long_case(1, NONE, 3 * G / 4 + 100001, 0, 0);
		long_case(1, STRIP, 3 * G / 4 + 200000, 0, G + 1001);
		if (scale > 1) { long_case(1, IGNORE, G + 100001, 76, 0); long_case(1, STRIP, 2 * G + 100001, 76, 0); long_case(1, NONE, 2 * G + 2, 0, 2 * G + 70001); long_case(1, IGNORE, G + 5, 0, G + 17); }
	}
}

int main(int argc, char **argv) {
	if (argc < 2) return 2;
	g_argc = argc; g_argv = argv;
	g_exe = arg("exe", NULL); g_emu = arg("emu", NULL);
	if (!g_exe) die("exe");
	signal(SIGPIPE, SIG_IGN);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, NULL);
	struct rlimit fl; getrlimit(RLIMIT_FSIZE, &fl); fl.rlim_cur = fl.rlim_max < (1u << 30) ? fl.rlim_max : 1u << 30; setrlimit(RLIMIT_FSIZE, &fl);
	g_part = argl("part", 0); g_parts = argl("parts", 1);
	g_nrec = argl("nrec", 0); if (g_nrec) g_rec = fopen(arg("rec", "/dev/null"), "w");
	rseed((uint64_t)argl("seed", 1) * 77 + (unsigned char)argv[1][0]);
	oracle_selftest();
	int scale = (int)argl("scale", 1), small = (int)argl("small", 0);
	if (!strcmp(argv[1], "encode")) sweep_encode(scale, small);
	else if (!strcmp(argv[1], "decode")) sweep_decode(scale, small);
	else if (!strcmp(argv[1], "opts")) sweep_opts();
	else if (!strcmp(argv[1], "env")) sweep_env();
	else if (!strcmp(argv[1], "long")) sweep_long(scale);
#ifdef __x86_64__
	else if (!strcmp(argv[1], "faults")) sweep_faults(scale, (int)argl("light", 0));
#endif
	else return 2;
	if (g_rec) fclose(g_rec);
	printf("STATS {\"runs\":%llu,\"bytes\":%llu,\"accepted\":%llu,\"refused\":%llu,\"recorded\":%llu,\"help\":%llu,\"errors\":%llu,\"syscalls\":%llu,\"faulted\":%llu}\n",
		(unsigned long long)nruns, (unsigned long long)nbytes, (unsigned long long)nok, (unsigned long long)nbad, (unsigned long long)nrecs,
		(unsigned long long)nhelp, (unsigned long long)nerr, (unsigned long long)ncalls, (unsigned long long)nfaulted);
	return 0;
}
