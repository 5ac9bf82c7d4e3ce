"""C18: the look-up tables, entry by entry, and their generators."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from .core import sh, Infra, Violation, REPO, CONFIGS
from . import api

NAMES = ("enc_6bit", "enc_12bit", "dec_8bit", "dec_32bit_d0", "dec_32bit_d1", "dec_32bit_d2", "dec_32bit_d3")
SIZES = {n: {"enc_6bit": 64, "enc_12bit": 8192, "dec_8bit": 256}.get(n, 1024) for n in NAMES}


def defined(lib):
    """table -> size of its symbol"""
    out = subprocess.run(["nm", "-S", "--defined-only", lib], capture_output=True, text=True).stdout
    return {m.group(2): int(m.group(1), 16) for m in re.finditer(r"^\w+ (\w+) [A-Z] base64_table_(\w+)$", out, flags=re.M) if m.group(2) in NAMES}


DUMP = r"""
#include <stdio.h>
%s
static void dump(const char *n, const void *p, size_t k) {
	const unsigned char *b = p;
	printf("{\"name\":\"%%s\",\"bytes\":[", n);
	for (size_t i = 0; i < k; i++) printf("%%s%%u", i ? "," : "", b[i]);
	printf("]}\n");
}
int main(void) { %s return 0; }
"""


def parse(out, origin):
    r = [json.loads(l) for l in out.splitlines() if l.startswith('{"name"')]
    for x in r:
        x["origin"] = origin
    return r


def dump_lib(ctx, b):
    """The tables inside a built library, as bytes in memory."""
    d = defined(b.lib)
    if not d:
        return []
    c, exe = os.path.join(b.dir, "tabdump.c"), os.path.join(b.dir, "tabdump")
    decl = "".join("extern const unsigned char base64_table_%s[];\n" % n for n in sorted(d))
    open(c, "w").write(DUMP % (decl, " ".join('dump("%s", base64_table_%s, %d);' % (n, n, d[n]) for n in sorted(d))))
    sh([b.cc, "-O0", "-w", "-static", c, b.lib, "-o", exe])
    return parse(sh(b.run(exe, []), timeout=120)[1], b.name)


def dump_headers(ctx, tag, headers, cc, emu):
    """The tables a header defines, compiled for a target."""
    txt = [re.sub(r"/\*.*?\*/|//[^\n]*", "", open(h).read(), flags=re.S) for h in headers]
    names = [n for n in NAMES if any(re.search(r"\bbase64_table_%s\s*\[" % n, t) for t in txt)]
    if not names:
        return []
    c, exe = os.path.join(ctx.work, "hdr-%s.c" % tag), os.path.join(ctx.work, "hdr-" + tag)
    inc = '#include <stdint.h>\n#include "env.h"\n' + "".join('#include "%s"\n' % h for h in headers)
    open(c, "w").write(DUMP % (inc, " ".join('dump("%s", base64_table_%s, sizeof base64_table_%s);' % (n, n, n) for n in names)))
    sh([cc, "-O0", "-w", "-static", "-I" + os.path.join(REPO, "lib"), "-I" + os.path.join(REPO, "include"), c, "-o", exe])
    return parse(sh(([emu] if emu else []) + [exe], timeout=120)[1], tag)


ALTS = ("-_=", "-_.", "._-", "+/=", "/+=", ",!*")
TARGETS = {"le": ("/usr/bin/gcc", None), "be": ("/usr/bin/s390x-linux-gnu-gcc", "/usr/bin/qemu-s390x")}


def c18(ctx):
    ctx.model(("TablesMC", "TablesMC.cfg"))
    jobs = [("native", "plain", "full"), ("i686", "plain", "mid"), ("s390x", "plain", "emu"), ("s390x-w32", "plain", "emu")]
    for n in ("aarch64", "armhf"):
        jobs.append((n, "all", "emu"))
    for c in api.X86[1:]:
        jobs.append(("native", c, "mid"))
    jobs.append(("avx512emu", "avx512", "mid"))
    jobs = [j + () for j in jobs]
    api.sweep(ctx, "tables", jobs, nrec=4)

    lib = os.path.join(REPO, "lib", "tables")
    out = lambda n: os.path.join(ctx.work, n)
    tabs = []
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda n: dump_lib(ctx, ctx.builds[n]), [n for n in sorted(ctx.builds) if n != "avx512emu"]):
            tabs += r
    # what the generators print, compiled for both byte orders
    gens, alts = {}, []
    src = os.path.join(lib, "table_generator.c")
    if os.path.exists(src):
        for k, (cc, emu) in TARGETS.items():         # the generator itself run on either byte order
            exe = out("gen-" + k)
            sh([cc, "-O1", "-w", "-static", "-I" + os.path.join(REPO, "lib"), "-I" + lib, src, "-o", exe])
            p = subprocess.run(([emu] if emu else []) + [exe], capture_output=True, timeout=120)
            if p.returncode:
                ctx.violation("table_generator exits with %d" % p.returncode, "generator.txt", repr(p))
            open(out("gen-dec-%s.h" % k), "wb").write(p.stdout)
            gens["dec-" + k] = (out("gen-dec-%s.h" % k), "table_dec_32bit.h")
            # other characters for 62, 63 and padding; anything but three is refused
            for q, alt in enumerate(ALTS):
                p = subprocess.run(([emu] if emu else []) + [exe, alt], capture_output=True, timeout=120)
                if p.returncode:
                    ctx.violation("table_generator '%s' exits with %d" % (alt, p.returncode), "generator.txt", repr(p))
                open(out("gen-alt%d-%s.h" % (q, k)), "wb").write(p.stdout)
                alts.append((out("gen-alt%d-%s.h" % (q, k)), "alt%d-%s" % (q, k), [ord(alt[0]), ord(alt[1])]))
            for bad in ("", "-", "-_", "-_..", "-_.-_."):
                p = subprocess.run(([emu] if emu else []) + [exe, bad], capture_output=True, timeout=120)
                if p.returncode == 0:
                    ctx.violation("table_generator accepts '%s' for three characters" % bad, "generator.txt", repr(p))
    src = os.path.join(lib, "table_enc_12bit.py")
    if os.path.exists(src):
        p = subprocess.run(["python3", "-B", src], capture_output=True, timeout=120, cwd=ctx.work)
        if p.returncode:
            ctx.violation("table_enc_12bit.py exits with %d" % p.returncode, "generator.txt", repr(p))
        open(out("gen-enc.h"), "wb").write(p.stdout)
        gens["enc"] = (out("gen-enc.h"), "table_enc_12bit.h")
    def cmp(x):
        g, (h, shipped), k = x
        cc, emu = TARGETS[k]
        a = dump_headers(ctx, "%s-for-%s" % (g, k), [h], cc, emu)
        s = os.path.join(lib, shipped)
        b = dump_headers(ctx, "shipped-%s-for-%s" % (g, k), [s], cc, emu) if os.path.exists(s) else []
        return g, k, a, b
    same = 0
    def alt(x):
        h, tag, chars, k = x
        return [dict(t, alt=chars) for t in dump_headers(ctx, "%s-for-%s" % (tag, k), [h], *TARGETS[k])]
    with ThreadPoolExecutor(8) as ex:
        for a in ex.map(alt, [x + (k,) for x in alts for k in TARGETS]):
            tabs += a
    with ThreadPoolExecutor(8) as ex:
        for g, k, a, b in ex.map(cmp, [(g, v, k) for g, v in sorted(gens.items()) for k in TARGETS]):
            tabs += a
            ship = {x["name"]: x["bytes"] for x in b}
            for x in a:
                if x["name"] in ship:
                    if ship[x["name"]] != x["bytes"]:
                        d = [i for i, (p, q) in enumerate(zip(ship[x["name"]], x["bytes"])) if p != q]
                        ctx.violation("the generator (%s) does not reproduce the shipped table %s for a %s-endian target (first at byte %s)" %
                                      (g, x["name"], "little" if k == "le" else "big", d[:1]), "generator-%s-%s.txt" % (g, k), json.dumps(dict(x, shipped=ship[x["name"]])))
                    same += 1
            missing = set(ship) - {x["name"] for x in a}
            if missing:
                ctx.violation("the generator (%s) does not print the shipped table %s" % (g, sorted(missing)), "generator-%s-%s.txt" % (g, k), str(sorted(missing)))
    ctx.cov["tables_reproduced_by_generators"] = same
    if not tabs:
        ctx.log("no tables under their own names in this tree: only the calls that use them were checked")
        return
    # elements of another width than the one specified are not judged as bytes
    wide = [x for x in tabs if len(x["bytes"]) >= 2 * SIZES[x["name"]] and len(x["bytes"]) % SIZES[x["name"]] == 0]
    if wide:
        ctx.log("tables of other element types, judged only through the calls: %s" % sorted({x["name"] for x in wide}))
        tabs = [x for x in tabs if x not in wide]
        if not tabs:
            return
    # TLC judges every entry
    lines = [json.dumps(x, separators=(",", ":")) for x in tabs]
    groups = [g for g in (lines[i::4] for i in range(4)) if g]
    def judge(i):
        return i, ctx.tlc("TablesTrace", files=[("trace.ndjson", "\n".join(groups[i]) + "\n")], workers=2, expect_ok=False, tag="tables%d" % i, count=False, heap="2g")
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(judge, range(len(groups))))
    for i, r in res:
        if r["rc"]:
            m = re.search(r"Invariant (\w+) is violated", r["out"])
            if not m:
                raise Infra("TablesTrace did not run\n" + r["out"][-2500:])
            st = re.findall(r"/\\ t = (\d+)\n/\\ i = (\d+)|/\\ i = (\d+)\n/\\ t = (\d+)", r["out"])
            t, k = (int(st[-1][0] or st[-1][3]), int(st[-1][1] or st[-1][2])) if st else (1, 0)
            x = json.loads(groups[i][t - 1])
            ctx.violation("%s: entry %d of base64_table_%s (%s) is not what Tables.tla prescribes" % (m.group(1), k, x["name"], x["origin"]),
                          "table-%s-%s.json" % (x["origin"], x["name"]), json.dumps(dict(x, entry=k, invariant=m.group(1))))
        ctx.states += r["distinct"]
        ctx.transitions += r["states"]
        ctx.add("entries_judged", r["distinct"])
    ctx.traces += len(lines)
    # a corrupted entry must be refused
    bad = json.loads(([l for l in lines if '"enc_12bit"' in l or '"dec_8bit"' in l] or lines)[0])
    at = len(bad["bytes"]) // 4 + 6 if bad["name"] in ("enc_12bit", "dec_8bit") else [i for i, v in enumerate(bad["bytes"]) if v not in (0, 255)][0]
    bad["bytes"][at] ^= 1
    r = ctx.tlc("TablesTrace", files=[("trace.ndjson", json.dumps(bad) + "\n")], workers=2, expect_ok=False, tag="tables-bad", count=False, heap="2g")
    if not re.search("Invariant Right is violated", r["out"]):
        raise Infra("a corrupted table was accepted: the binding is vacuous")
    ctx.add("corrupted_traces_rejected", 1)
    ctx.cov["tables"] = sorted({x["name"] + "@" + x["origin"] for x in tabs})
    ctx.log("%d tables, %d entries judged, %d generator comparisons" % (len(lines), ctx.cov["entries_judged"], same))
