CLI = '''#!/bin/bash
# Exit 0: the behaviour is right. Nonzero: it is broken.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
B=/repo/_build/native/bin/base64
'''
SEEDS = [
 dict(id='c11-neon-clobber', property='C11', variant='aarch64',
  needs='the NEON assembler loop for AArch64, eight or more of its rounds, and a caller that keeps values in the callee-saved registers d12 to d15',
  breaks='a call destroys floating-point registers that belong to its caller',
  edits=[('lib/arch/neon64/enc_loop_asm.c', '		  "v12", "v13", "v14", "v15",\n', '')],
  demo=r'''static __attribute__((noinline)) int once(size_t n) {
 static char in[4096], out[8192]; size_t ol; volatile double k[8]; for (int i = 0; i < 8; i++) k[i] = n * 1.25 + i;
 double a = k[0], b = k[1], c = k[2], d = k[3], e = k[4], f = k[5], g = k[6], h = k[7];
 __asm__ volatile ("" : "+w"(a), "+w"(b), "+w"(c), "+w"(d), "+w"(e), "+w"(f), "+w"(g), "+w"(h));
 base64_encode(in, n, out, &ol, 0);
 __asm__ volatile ("" : "+w"(a), "+w"(b), "+w"(c), "+w"(d), "+w"(e), "+w"(f), "+w"(g), "+w"(h));
 return a == k[0] && b == k[1] && c == k[2] && d == k[3] && e == k[4] && f == k[5] && g == k[6] && h == k[7];
}
int main(void) { for (size_t n = 0; n < 4000; n += 13) if (!once(n)) FAIL("length %zu", n); return 0; }
'''),
 dict(id='c12-double-final', property='C12',
  needs='a stream finalised in one place, then a copy of another open stream laid over it and finalised there, without an initialisation in between',
  breaks='the copy is taken for the stream that lay there before and loses its last characters',
  edits=[('lib/lib.c', '''	uint8_t *o = (uint8_t *)out;

	if (state->bytes == 1) {
''', '''	uint8_t *o = (uint8_t *)out;

	// Finalizing a stream a second time adds nothing:
	if (state == finalized) {
		*outlen = 0;
		return;
	}
	finalized = state;

	if (state->bytes == 1) {
'''), ('lib/lib.c', '''void
base64_stream_encode_init (struct base64_state *state, int flags)
{
''', '''// The stream that was finalized last:
static __thread const struct base64_state *finalized = NULL;

void
base64_stream_encode_init (struct base64_state *state, int flags)
{
	if (finalized == state) {
		finalized = NULL;
	}

''')],
  demo=r'''int main(void) { struct base64_state a, b; char o[64]; size_t n;
 base64_stream_encode_init(&a, 0); base64_stream_encode(&a, "x", 1, o, &n); base64_stream_encode_final(&a, o, &n); if (n != 3) FAIL("first");
 base64_stream_encode_init(&b, 0); base64_stream_encode(&b, "yz", 2, o, &n);
 a = b; base64_stream_encode_final(&a, o, &n); if (n != 2) FAIL("copy: %zu", n);
 base64_stream_encode_final(&b, o, &n); if (n != 2) FAIL("original: %zu", n); return 0; }
'''),
 dict(id='c13-tty', property='C13',
  needs='-w0 and a terminal as standard output',
  breaks='a newline follows the unbroken line',
  edits=[('bin/base64.c', '''		if (config->wrap > 0 && col > 0) {
''', '''		if ((config->wrap > 0 && col > 0) || (config->wrap == 0 && isatty(1))) {
''')],
  sh=CLI + r'''cat > "$t/p.py" <<'P'
import os, pty, sys, termios, select
m, s = pty.openpty()
a = termios.tcgetattr(s); a[1] &= ~termios.OPOST; termios.tcsetattr(s, termios.TCSANOW, a)
pid = os.fork()
if pid == 0:
    os.dup2(s, 1)
    os.execv(sys.argv[1], [sys.argv[1], "-w0", sys.argv[2]])
_, st = os.waitpid(pid, 0)
got = b""
while select.select([m], [], [], 0.5)[0]:
    got += os.read(m, 4096)
sys.exit(0 if st == 0 and got == b"aGVsbG8=" else 1)
P
printf hello > "$t/i"
python3 "$t/p.py" "$B" "$t/i"
'''),
 dict(id='c14-midfile', property='C14',
  needs='standard input that is a regular file of which something else has already read a part',
  breaks='the tool goes back to the beginning of the file and decodes what was not given to it',
  edits=[('bin/base64.c', '''	size_t avail;
	struct base64_state state;
''', '''	size_t avail;
	struct base64_state state;

	// Nothing to do for an empty file.
	if (fseek(config->fp, 0, SEEK_END) == 0) {
		if (ftell(config->fp) == 0) {
			return true;
		}
		rewind(config->fp);
	}
''')],
  sh=CLI + r'''printf 'XXXXaGVsbG8=' > "$t/i"
exec < "$t/i"
IFS= read -r -n 4 head
python3 -c 'import os; os.lseek(0, 4, 0)'
[ "$("$B" -d)" = hello ]
'''),
]
