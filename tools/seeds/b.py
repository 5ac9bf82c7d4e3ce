def cli(body):
    return 'B=/repo/_build/native/bin/base64\n' + body


SEEDS = [
 dict(id='c18-gen-be', property='C18', needs='running the table generator and looking at what it prints for big-endian targets', breaks='the third decoding table for big-endian targets has its bits in the wrong place',
  edits=[('lib/tables/table_generator.c', 'ary[x] = i << 14;', 'ary[x] = i << 13;')],
  sh=r'''gcc -O1 -w -o "$t/g" /repo/lib/tables/table_generator.c || exit 3
"$t/g" > "$t/g.h" 2>/dev/null
for e in 0 1; do
	for f in "$t/g.h" /repo/lib/tables/table_dec_32bit.h; do gcc -E -P -DBASE64_LITTLE_ENDIAN=$e "$f" | grep -o '0x[0-9a-fA-F]*\|_d[0-3]' > "$t/$(basename $f).$e"; done
	cmp "$t/g.h.$e" "$t/table_dec_32bit.h.$e" || exit 1
done
'''),
 dict(id='c18-py-le', property='C18', needs='running the generator of the encoding table and looking at single entries', breaks='indices that are multiples of 64 above 4000 come out wrong',
  edits=[('lib/tables/table_enc_12bit.py', '(tr(n & 0x3F) << 8))', '(tr(n & (0x3F if n < 4032 else 0x3E)) << 8))')],
  sh=r'''python3 -B /repo/lib/tables/table_enc_12bit.py > "$t/g.h" || exit 3
for e in 0 1; do
	for f in "$t/g.h" /repo/lib/tables/table_enc_12bit.h; do gcc -E -P -DBASE64_LITTLE_ENDIAN=$e "$f" | grep -o '0x[0-9a-fA-F]*' > "$t/$(basename $f).$e"; done
	cmp "$t/g.h.$e" "$t/table_enc_12bit.h.$e" || exit 1
done
'''),
 dict(id='c07-avx2-carry', property='C07', needs='an encoding stream that one codec begins in the middle of a group and another continues', breaks='the AVX2 encoder keeps the pending bits in a different form than the others',
  edits=[('lib/arch/avx2/codec.c', """	#include "../generic/enc_head.c"
	enc_loop_avx2(&s, &slen, &o, &olen);
	#include "../generic/enc_tail.c"
""", """	// Keep the carry in a form that needs no masking:
	state->carry ^= state->bytes;
	#include "../generic/enc_head.c"
	enc_loop_avx2(&s, &slen, &o, &olen);
	#include "../generic/enc_tail.c"
	state->carry ^= state->bytes;
"""), ('lib/lib.c', """	if (state->bytes == 1) {
		*o++ = base64_table_enc_6bit[state->carry];
		*o++ = '=';
		*o++ = '=';
""", """	if (state->bytes == 1) {
		*o++ = base64_table_enc_6bit[state->carry & 0x30];
		*o++ = '=';
		*o++ = '=';
"""), ('lib/lib.c', """	if (state->bytes == 2) {
		*o++ = base64_table_enc_6bit[state->carry];
""", """	if (state->bytes == 2) {
		*o++ = base64_table_enc_6bit[state->carry & 0x3C];
""")],
  demo=r"""int main(void) { struct base64_state a, x; char o[32]; size_t n, m = 0; if (!__builtin_cpu_supports("avx2")) return 0;
 base64_stream_encode_init(&a, BASE64_FORCE_AVX2); base64_stream_encode(&a, "ab", 2, o, &n); m += n;
 base64_stream_encode_init(&x, BASE64_FORCE_PLAIN); base64_stream_encode(&a, "c", 1, o + m, &n); m += n;
 if (m != 4 || memcmp(o, "YWJj", 4)) FAIL("%.4s", o); return 0; }
"""),
 dict(id='c07-dec-eof-form', property='C07', needs='a decoding stream in which AVX2 meets the first padding character at the end of a chunk and another codec the second one', breaks='AVX2 leaves the stream in a state that the others take for closed',
  edits=[('lib/arch/avx2/codec.c', """int
base64_stream_decode_avx2 BASE64_DEC_PARAMS
{
#if HAVE_AVX2
	#include "../generic/dec_head.c"
	dec_loop_avx2(&s, &slen, &o, &olen);
	#include "../generic/dec_tail.c"
""", """#if HAVE_AVX2
static int
dec_avx2 BASE64_DEC_PARAMS
{
	#include "../generic/dec_head.c"
	dec_loop_avx2(&s, &slen, &o, &olen);
	#include "../generic/dec_tail.c"
}
#endif

int
base64_stream_decode_avx2 BASE64_DEC_PARAMS
{
#if HAVE_AVX2
	// An end that is still to be confirmed has a code of its own:
	if (state->eof == 3) {
		state->eof = BASE64_AEOF;
	}
	const int ret = dec_avx2(state, src, srclen, out, outlen);

	if (state->eof == BASE64_AEOF) {
		state->eof = 3;
	}
	return ret;
""")],
  demo=r"""int main(void) { struct base64_state a, x; char o[32]; size_t n; if (!__builtin_cpu_supports("avx2")) return 0;
 base64_stream_decode_init(&a, BASE64_FORCE_AVX2); if (base64_stream_decode(&a, "AA=", 3, o, &n) != 1) FAIL("first"); base64_stream_decode_init(&x, BASE64_FORCE_PLAIN);
 if (base64_stream_decode(&a, "=", 1, o, &n) != 1) FAIL("second"); return 0; }
"""),
 dict(id='c19-dec-olen', property='C19', needs='decoding to more than 4 GiB in one call', breaks='the output count is kept in 32 bits in the common part of the decoders',
  edits=[('lib/arch/generic/dec_tail.c', '*outlen = olen;\nreturn ret;', '*outlen = (unsigned int) olen;\nreturn ret;')],
  demo=r'''
static char *alias(size_t total, size_t period) { int fd = memfd_create("x", 0); if (fd < 0 || ftruncate(fd, period)) exit(9); char *p = mmap(NULL, total + 2 * period, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) exit(9);
 for (size_t i = 0; i < total + 2 * period; i += period) if (mmap(p + i, period, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) exit(9); return p; }
int main(void) { size_t n = (size_t) 6 << 30, k = 0; char *s = alias(n, 4u << 20), *o = alias(n / 4 * 3, 3u << 20); memset(s, 'A', 4u << 20);
 if (base64_decode(s, n, o, &k, 0) != 1 || k != n / 4 * 3) FAIL("%zu", k); return 0; }
'''.replace('\nstatic char', '\n#include <sys/mman.h>\nint memfd_create(const char *, unsigned);\nstatic char', 1)),
 dict(id='c14-pad-garbage', property='C14', needs='-i and data after the padding', breaks='padding is dropped like other characters that are not data, so that what follows it is decoded too',
  edits=[('bin/base64.c', "['+'] = 1, ['/'] = 1, ['='] = 1,", "['+'] = 1, ['/'] = 1,")],
  sh=cli(r'''printf 'QQ==\n' | "$B" -di > "$t/o" || exit 1; printf A | cmp - "$t/o" || exit 1
printf 'QUJD*QQ==QUJD\n' | "$B" -di > "$t/o" 2>/dev/null && exit 1; exit 0
''')),
 dict(id='c15-epipe', property='C15', needs='a reader that goes away before everything is written, with SIGPIPE ignored', breaks='the lost output is not reported',
  edits=[('bin/base64.c', """			// Quit on other errors.
			fprintf(stderr, "%s: write: %s\\n",
			        config->name, strerror(errno));
			return false;
""", """			// A reader that has seen enough is no error:
			if (errno == EPIPE) {
				return true;
			}

			// Quit on other errors.
			fprintf(stderr, "%s: write: %s\\n",
			        config->name, strerror(errno));
			return false;
""")],
  sh=cli(r'''head -c 5000000 /dev/zero > "$t/i"
cat > "$t/p.py" <<'X'
import os, signal, subprocess, sys
signal.signal(signal.SIGPIPE, signal.SIG_IGN)
r, w = os.pipe(); os.close(r)
p = subprocess.run([sys.argv[1], "-w", "0", sys.argv[2]], stdout=w, stderr=subprocess.DEVNULL, restore_signals=False)
sys.exit(1 if p.returncode == 0 else 0)
X
python3 -B "$t/p.py" "$B" "$t/i"
''')),
 dict(id='c16-file-after-dd', property='C16', needs='a file name after "--" that is a dash', breaks='"-" after "--" is taken for a file of that name',
  edits=[('bin/base64.c', '	if (strcmp(argv[optind], "-") == 0) {', '	if (strcmp(argv[optind], "-") == 0 && strcmp(argv[optind - 1], "--") != 0) {')],
  sh=cli(r'''cd "$t"; printf ABC | "$B" -w 0 -- - > o || exit 1; printf QUJD | cmp - o
''')),
 dict(id='c05-second-pad', property='C05', needs='"xx=" at the end of one chunk, "=" and more in the next one', breaks='what follows the padding in the same chunk is ignored',
  edits=[('lib/arch/generic/dec_head.c', '((base64_table_dec_8bit[*s++] == 254) && (slen == 1)) ? 1 : 0;', '(base64_table_dec_8bit[*s++] == 254) ? 1 : 0;')],
  demo=r"""int main(void) { struct base64_state st; char o[16]; size_t n; base64_stream_decode_init(&st, 0); if (base64_stream_decode(&st, "AA=", 3, o, &n) != 1) FAIL("1"); if (base64_stream_decode(&st, "=A", 2, o, &n) != 0) FAIL("accepted"); return 0; }
"""),
 dict(id='c17-stub-latch', property='C17', needs='a codec that is not compiled in, forced once, and automatic calls after it', breaks='forcing a missing codec quietly uses the plain one',
  edits=[('lib/codec_choose.c', '	if (flags & BASE64_FORCE_NEON64) {\n		codec->enc = base64_stream_encode_neon64;\n		codec->dec = base64_stream_decode_neon64;\n		return true;\n	}', '	#if HAVE_NEON64\n	if (flags & BASE64_FORCE_NEON64) {\n		codec->enc = base64_stream_encode_neon64;\n		codec->dec = base64_stream_decode_neon64;\n		return true;\n	}\n	#endif')],
  demo=r"""int main(void) { char o[16]; size_t n; if (base64_decode("AAAA", 4, o, &n, BASE64_FORCE_NEON64) != -1) FAIL("NEON64 is there"); return 0; }
"""),
]
