"""C09: schedules of two threads at instruction granularity, and stress."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
from .core import sh, Infra, CODEC_IDS, HARNESS
from .api import expect_counterexample


def outcomes(ctx):
    r = ctx.tlc("Select", "SelectOut.cfg", workers=1, count=False)
    rows = set()
    K = {"enc": 0, "dec": 1}
    C = {"auto": 0, "x": 1, "y": 2, "null": 3}
    F = {"0": 0, "x": 1, "y": 2}
    for ln in re.sub(r"\n\s+", " ", r["out"]).splitlines():      # TLC breaks long lines
        if not re.match(r'<<\s*"OUT"', ln):
            continue
        v = json.loads(ln.replace("<<", "[").replace(">>", "]"))
        _, past, k1, c1, f1, o1, k2, c2, f2, o2, e1, e2 = v
        pad = lambda e: ([C[x] for x in e] + [3, 3])[:2]
        rows.add((C[past], K[k1], c1, F[f1], o1, K[k2], c2, F[f2], o2, *pad(e1), *pad(e2)))
    if len(rows) < 2000:
        raise Infra("Select.tla exported only %d outcomes" % len(rows))
    rows = sorted(rows)
    with open(os.path.join(ctx.work, "sel_out.h"), "w") as f:
        f.write("// Generated by TLC from spec/Select.tla: do not edit.\nstruct outcome { int past, k1, c1, f1, o1, k2, c2, f2, o2, e1[2], e2[2]; };\n")
        f.write("static const struct outcome OUT[] = {\n%s};\nenum { NOUT = %d };\n" %
                ("".join("{%d,%d,%d,%d,%d,%d,%d,%d,%d,{%d,%d},{%d,%d}},\n" % r for r in rows), len(rows)))
    return len(rows)


def c09(ctx):
    ctx.model(("Select", "Select3.cfg"), ("Select", "SelectWarm.cfg"), ("Select", "SelectWarm2.cfg"))
    ctx.proof("SelectProof", 'Variant = "code"', 'Variant = "reset"')
    expect_counterexample(ctx, "Select", "SelectBad_warmreset.cfg", "the pair is cleared before it is written, with streams open")
    expect_counterexample(ctx, "Select", "SelectBad_checkenc.cfg", "decode_init looks at the encoder's pointer")
    expect_counterexample(ctx, "Select", "SelectBad_reset.cfg", "the pair is cleared before it is written")
    nout = outcomes(ctx)
    ctx.tables()
    bs = ctx.build(["native", "noasm", "nosimd", "i686"] + (["clang", "debug"] if ctx.thorough else []))

    def build(n):
        b = bs[n]
        codecs = b.codec_symbols()
        wraps = sum((["-Wl,--wrap=base64_stream_encode_" + a, "-Wl,--wrap=base64_stream_decode_" + a] for a in codecs), [])
        exe = os.path.join(b.dir, "sched")
        sh([b.cc, "-O1", "-g", "-std=gnu11", "-w", "-static", "-pthread", "-DBASE64_STATIC_DEFINE",
            "-DSHIM_CODECS=" + " ".join("CODEC(%d,%s)" % (i, a) for i, a in CODEC_IDS.items() if a in codecs),
            "-I" + ctx.work, "-I" + os.path.join(b.src, "include"), os.path.join(HARNESS, "sched.c"), b.lib, "-o", exe] + wraps, timeout=300)
        return exe, len(codecs) >= 9
    with ThreadPoolExecutor(8) as ex:
        exes = dict(zip(bs, ex.map(build, bs)))
    jobs = []
    for n in bs:
        av = [c for c in bs[n].available() if c != "plain"]
        each = ["auto:auto", "plain:plain"] + ["%s:%s" % (c, c) for c in sorted(av)]
        mixed = ["auto:plain", "plain:auto"] + (["auto:%s" % c for c in ("ssse3", "avx2") if c in av] + ["avx2:ssse3", "ssse3:plain", "plain:avx512", "sse41:auto"] if av else [])
        length = 150 if n == "native" or ctx.thorough else 70
        for p in each + mixed:
            if n != "native" and not ctx.thorough and p not in (each + ["auto:plain"] if n == "noasm" else ["auto:auto", "plain:plain", "avx2:avx2", "ssse3:ssse3", "auto:plain"]):
                continue
            jobs.append((n, ["enum", str(length), "pairs=" + p], "one"))
        for p in ["auto:auto", "auto:plain", "plain:auto", "avx2:ssse3"] + (["avx2:avx2", "plain:plain", "auto:avx2"] if ctx.thorough else []):
            if n == "native" or p == "auto:auto" and n == "nosimd" or ctx.thorough and n in ("i686", "nosimd"):
                jobs.append((n, ["enum", "40", "pairs=" + p] + (["two=8", "maxj=3000", "jdense=250"] if ctx.thorough else ["two=1", "maxj=500", "jdense=160"]), "two"))
        if n in ("native", "i686", "nosimd"):
            for nt in (2, 8, 32):
                jobs.append((n, ["stress", str(nt), "rounds=%d" % (2000 if ctx.thorough else 150), "codecs=" + ",".join(["auto", "plain"] + av)], "stress"))

    # with a past: the selection changes under streams that are open, or do not ask for one
    for n in bs:
        av = [c for c in bs[n].available() if c != "plain"]
        names = [c for c in ("ssse3", "avx2", "avx", "sse42", "avx512") if c in av] if n == "native" or ctx.thorough else [c for c in ("ssse3", "avx2") if c in av]
        for c in names + ["plain"]:
            for p in ["%s:auto:auto:B" % c, "%s:auto:auto" % c, "auto:%s:auto:A" % c, "%s:auto:%s:B" % (c, "plain" if c != "plain" else (av or ["plain"])[0])] + (["auto:auto:%s" % c, "auto:auto:%s:B" % c, "plain:plain:" + c] if c == "avx2" or ctx.thorough else []):
                jobs.append((n, ["enum", "70" if ctx.thorough else "40", "pairs=" + p], "one"))
                if c in ("avx2", "plain") and n == "native" or ctx.thorough:
                    jobs.append((n, ["enum", "40", "pairs=" + p] + (["two=6", "maxj=2000", "jdense=200"] if ctx.thorough else ["two=1", "maxj=200", "jdense=60"]), "two"))

    jobs.sort(key=lambda j: j[2] != "two")

    def one(k):
        n, a, kind = jobs[k]
        fail = os.path.join(bs[n].dir, "sched-fail-%d" % k)
        rc, out = sh([exes[n][0]] + a + ["fail=" + fail, "seed=%d" % ctx.seed, "wraps=%d" % exes[n][1]], ok=None, timeout=3000 if ctx.thorough else 800)
        return k, rc, out, fail
    if os.environ.get("VERIF_TIMES"):
        import time
        one_ = one
        def one(k):
            t = time.time()
            r = one_(k)
            print("%6.1f" % (time.time() - t), jobs[k], r[2].strip()[-150:])
            return r
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, range(len(jobs))))
    for k, rc, out, fail in res:
        n, a, kind = jobs[k]
        if rc == 1 and os.path.exists(fail):
            text = open(fail).read()
            if kind != "stress" and not any(one(k)[1] == 1 for _ in range(3)):
                raise Infra("a disagreement did not repeat: " + text[:300])
            ctx.violation(text.splitlines()[0] + " (configuration %s)" % n, "schedule-%s.txt" % n, "# configuration %s: sched %s\n%s" % (n, " ".join(a), text))
        m = re.search(r"STATS (\{.*\})", out)
        if rc or not m:
            raise Infra("sched %s %s: exit %d\n%s" % (n, a, rc, out[-1500:]))
        st = json.loads(m.group(1))
        if kind == "stress":
            ctx.add("stress_runs", st["calls"])
        else:
            ctx.add("schedules_%s_preemption%s" % (kind, "s" if kind == "two" else ""), st["schedules"])
            ctx.add("preemption_points", st["points"])
            ctx.cov["outcomes_seen_of_%d" % nout] = max(ctx.cov.get("outcomes_seen_of_%d" % nout, 0), st["outcomes_seen"])
            ctx.traces += st["schedules"]
            if len(ctx.samples) < 6:
                ctx.samples.append("%s %s: %s" % (n, " ".join(a), m.group(1)))
    ctx.assumptions += ["schedules are sequentially consistent at instruction granularity (x86); the ARM and s390x builds share the C code that holds the shared state",
                        "two-preemption schedules stop A where it writes shared memory and at sampled other places"]
    ctx.log("%d + %d schedules, %d stress runs" % (ctx.cov.get("schedules_one_preemption", 0), ctx.cov.get("schedules_two_preemptions", 0), ctx.cov.get("stress_runs", 0)))
