#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from the definitions in tools/seeds/*.py.

A definition file sets SEEDS: a list of dicts with
  id, property, needs, breaks,
  edits: [(file, old, new), ...]   (each `old` occurs exactly once)
  demo:  C source (linked with a built library)  or  sh: a shell script body
  variant: build directory below /repo/_build (default native)
"""
import difflib, glob, json, os, runpy, sys

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), 'seeded')

COMMON = r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/mman.h>
#include "libbase64.h"
static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
__attribute__((unused)) static size_t ref_enc(const unsigned char *s, size_t n, char *o)
{
	size_t i, k = 0;
	for (i = 0; i + 2 < n; i += 3) {
		o[k++] = AL[s[i] >> 2]; o[k++] = AL[(s[i] & 3) << 4 | s[i+1] >> 4];
		o[k++] = AL[(s[i+1] & 15) << 2 | s[i+2] >> 6]; o[k++] = AL[s[i+2] & 63];
	}
	if (n - i == 1) { o[k++] = AL[s[i] >> 2]; o[k++] = AL[(s[i] & 3) << 4]; o[k++] = '='; o[k++] = '='; }
	if (n - i == 2) { o[k++] = AL[s[i] >> 2]; o[k++] = AL[(s[i] & 3) << 4 | s[i+1] >> 4]; o[k++] = AL[(s[i+1] & 15) << 2]; o[k++] = '='; }
	return k;
}
static uint32_t rs = 12345;
__attribute__((unused)) static uint32_t rnd(void) { rs = rs * 1103515245u + 12345u; return rs >> 8; }
__attribute__((unused)) static void fill(void *p, size_t n) { unsigned char *c = p; for (size_t i = 0; i < n; i++) c[i] = (unsigned char) rnd(); }
/* n bytes that end right before an unmapped page */
__attribute__((unused)) static char *guarded(size_t n)
{
	size_t pg = 4096, m = (n + pg - 1) / pg * pg;
	char *p = mmap(NULL, m + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) exit(9);
	mprotect(p + m, pg, PROT_NONE);
	return p + m - n;
}
#define FAIL(...) do { printf(__VA_ARGS__); printf("\n"); exit(1); } while (0)
'''
SH = '''#!/bin/bash
# Exit 0: the behaviour is right. Nonzero: it is broken.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
'''
for f in sorted(glob.glob(os.path.join(HERE, 'seeds', '*.py'))):
    for s in runpy.run_path(f)['SEEDS']:
        if len(sys.argv) > 1 and s['id'] not in sys.argv[1:]:
            continue
        d = os.path.join(OUT, s['id'])
        os.makedirs(d, exist_ok=True)
        diff, new = '', {}
        for (fn, a, b) in s['edits']:
            cur = new.get(fn) or open('/repo/' + fn).read()
            if cur.count(a) != 1:
                sys.exit('%s: %d matches in %s of %r' % (s['id'], cur.count(a), fn, a))
            new[fn] = cur.replace(a, b)
        for fn in sorted(new):
            old = open('/repo/' + fn).read()
            diff += ''.join(difflib.unified_diff(old.splitlines(True), new[fn].splitlines(True), 'a/' + fn, 'b/' + fn))
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        sh = SH
        if 'demo' in s:
            open(d + '/common.h', 'w').write(COMMON)
            open(d + '/demo.c', 'w').write('#include "common.h"\n' + s['demo'])
            v = s.get('variant', 'native')
            cc = {'s390x': 's390x-linux-gnu-gcc -static', 'aarch64': 'aarch64-linux-gnu-gcc -static', 'armhf': 'arm-linux-gnueabihf-gcc -static', 'i686': 'i686-linux-gnu-gcc -static'}.get(v, 'gcc')
            run = {'s390x': 'qemu-s390x ', 'aarch64': 'qemu-aarch64 ', 'armhf': 'qemu-arm '}.get(v, '')
            sh += '%s -O1 -DBASE64_STATIC_DEFINE -I/repo/include "$d/demo.c" /repo/_build/%s/libbase64.a %s -o "$t/demo" || exit 3\n' % (cc, v, s.get('ld', ''))
            sh += s.get('run', 'timeout 250 ' + run + '"$t/demo"') + '\n'
        else:
            if 'demo_c' in s:
                open(d + '/demo.c', 'w').write(s['demo_c'])
            sh += s['sh']
        open(d + '/demo.sh', 'w').write(sh)
        os.chmod(d + '/demo.sh', 0o755)
        print(s['id'])
