"""C08: the automatic choice of a codec, on emulated CPUs."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from .core import sh, Infra, CODEC_IDS, HARNESS, subset_cfg, X86_SIMD, CONFIGS, cross
from .api import expect_counterexample, run_family

CONFIGS["armhf-neon"] = dict(cross("arm-linux-gnueabihf", "armv7l", "/usr/bin/qemu-arm"), cflags="-mfpu=neon")
CONFIGS["armhf-neon"]["opts"] = CONFIGS["armhf-neon"]["opts"] + ["-DBASE64_WITH_NEON32=ON"]
CONFIGS["aarch64-none"] = dict(cross("aarch64-linux-gnu", "aarch64", "/usr/bin/qemu-aarch64"))
CONFIGS["aarch64-none"]["opts"] = CONFIGS["aarch64-none"]["opts"] + ["-DBASE64_WITH_NEON64=OFF"]
CONFIGS["armhf-none"] = dict(cross("arm-linux-gnueabihf", "armv7l", "/usr/bin/qemu-arm"), cflags="-mfpu=neon")
CONFIGS["armhf-none"]["opts"] = CONFIGS["armhf-none"]["opts"] + ["-DBASE64_WITH_NEON32=OFF"]

RANKED = ["plain", "ssse3", "sse41", "sse42", "avx", "avx2", "avx512"]
IDS = {a: i for i, a in CODEC_IDS.items()}
# qemu's software CPU (it has no AVX-512), from nothing to everything
QEMU = ["qemu64", "Conroe", "Penryn", "Nehalem", "Westmere", "SandyBridge", "Haswell", "Opteron_G1", "Opteron_G3", "Opteron_G5", "EPYC",
        "core2duo", "kvm64", "Denverton", "Snowridge", "max", "max,-avx2", "max,-avx", "max,-xsave", "max,-sse4.2,-avx,-avx2", "max,-avx,-avx2", "max,-ssse3,-sse4.1,-sse4.2,-avx,-avx2",
        "Haswell,-xsave", "Haswell,level=6", "Haswell,level=1", "max,level=7", "Skylake-Client,-avx2", "max,-sse4.1,-sse4.2,-avx,-avx2"]


def patch_list(b, exe):
    """Addresses of CPUID/XGETBV in the library's part of the executable."""
    syms = subprocess.run(["nm", b.lib], capture_output=True, text=True).stdout
    own = set(re.findall(r"^[0-9a-f]+ [tT] (\S+)", syms, flags=re.M)) | {"__cpu_indicator_init", "get_available_features.constprop.0", "get_available_features"}
    out = subprocess.run(["objdump", "-d", "--no-show-raw-insn", exe], capture_output=True, text=True).stdout
    cur, p = None, []
    for ln in out.splitlines():
        m = re.match(r"^[0-9a-f]+ <(.+)>:$", ln)
        if m:
            cur = m.group(1)
            continue
        if cur in own:
            m = re.match(r"^\s*([0-9a-f]+):\s+(cpuid|xgetbv)\b", ln)
            if m:
                p.append((m.group(1), m.group(2)[0]))
    return p


def build_cpu(ctx, b):
    codecs = b.codec_symbols()
    wraps = sum((["-Wl,--wrap=base64_stream_encode_" + a, "-Wl,--wrap=base64_stream_decode_" + a] for a in codecs), [])
    exe = os.path.join(b.dir, "cpu")
    sh([b.cc, "-O1", "-g", "-std=gnu11", "-w", "-static", "-DBASE64_STATIC_DEFINE",
        "-DSHIM_CODECS=" + " ".join("CODEC(%d,%s)" % (i, a) for i, a in CODEC_IDS.items() if a in codecs),
        "-I" + os.path.join(b.src, "include"), os.path.join(HARNESS, "cpu.c"), b.lib, "-o", exe] + wraps, timeout=300)
    return exe


def c08(ctx):
    ctx.model(("CpuMC", "CpuAll.cfg"), ("CpuMC", "CpuXcr.cfg"), ("CpuMC", "CpuLive.cfg"))
    for v, what in (("nomax7", "leaf 7 used beyond the highest leaf"), ("noosx", "XGETBV without OSXSAVE"), ("ymmany", "YMM state half enabled"),
                    ("zmmany", "ZMM state half enabled"), ("novbmi", "AVX512VBMI not asked for")):
        expect_counterexample(ctx, "CpuMC", "CpuBad_%s.cfg" % v, what)
    r = ctx.tlc("CpuMC", "CpuDump.cfg", count=False)
    t = json.load(open(os.path.join(r["dir"], "cpu.json")))
    best = {frozenset(x["have"]): x["best"] for x in t["builds"]}
    index = {tuple(v): i for i, v in enumerate(t["vectors"])}

    subsets = [X86_SIMD, ("AVX512",), ("AVX2",), ("AVX",), ("SSE42",), ("SSE41",), ("SSSE3",), (),
               ("AVX", "AVX2"), ("SSSE3", "AVX512"), ("SSE41", "AVX2"), ("SSSE3", "SSE41", "SSE42"), ("SSE42", "AVX", "AVX512"), ("SSSE3", "AVX2", "AVX512")]
    if ctx.thorough:
        subsets = [tuple(x for k, x in enumerate(X86_SIMD) if m >> k & 1) for m in range(64)]
    names = [subset_cfg(s) for s in subsets]
    other = ["i686", "clang", "debug"]
    bs = ctx.build(names + other + ["aarch64", "armhf", "armhf-neon", "aarch64-none", "armhf-none", "s390x"])
    x86 = [n for n in names + other if n in bs]
    with ThreadPoolExecutor(8) as ex:
        exes = dict(zip(x86, ex.map(lambda n: build_cpu(ctx, bs[n]), x86)))
    ctx.log("built %d configurations" % len(bs))

    def drive(n):
        b = bs[n]
        have = frozenset(b.available() - {"plain"})
        if have not in best:
            raise Infra("unexpected set of codecs in %s: %s" % (n, sorted(have)))
        if not b.codec_symbols():
            return n, None
        p = patch_list(b, exes[n])
        if not p and have:
            ctx.log("%s: no CPUID instruction found in the library: not emulated" % n)
            return n, None
        nm = subprocess.run(["nm", b.lib], capture_output=True, text=True).stdout
        if re.search(r"^[0-9a-f]+ i |__x86_get_cpu\w*|_dl_x86_\w+", nm, flags=re.M):
            ctx.log("%s: the CPU is asked before the program can be patched: not emulated" % n)
            return n, None
        vf = os.path.join(b.dir, "vectors")
        with open(vf, "w") as f:
            for v, w in zip(t["vectors"], best[have]):
                f.write("%d %d %d %d %d %d %d\n" % (*v, IDS[RANKED[w]]))
        fail = os.path.join(b.dir, "cpu-fail")
        env = {"CPU_PATCH": ",".join("%s:%s" % x for x in p)}
        rc, out = sh([exes[n], "drive", vf, fail, "4" if ctx.thorough else "1"], env=env, ok=None, timeout=800)
        return n, (rc, out, fail, p)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(drive, x86))
    emulated = 0
    for n, x in res:
        if x is None:
            continue
        rc, out, fail, p = x
        if rc == 1:
            n2, x2 = drive(n)
            if x2[0] != 1:
                raise Infra("a disagreement did not repeat (%s)" % n)
            text = open(fail).read()
            ctx.violation("%s on the CPU %s (configuration %s)" % (text.splitlines()[0], text.splitlines()[1], n), n + ".txt",
                          "# configuration %s\n# lvl vl vbmi osxsave xcr0 maxleaf noise\n%s" % (n, text))
        if rc:
            raise Infra("cpu driver %s: exit %d %s" % (n, rc, out))
        k = int(re.search(r"VECTORS (\d+)", out).group(1))
        emulated += k
        ctx.cov.setdefault("emulated_cpus", {})[n] = k
    ctx.traces += emulated
    ctx.log("%d first uses on emulated CPUs" % emulated)

    # qemu's CPUs, with the codecs really executing
    def probe(a):
        n, cpu = a
        rc, out = sh((["qemu-x86_64", "-cpu", cpu] if cpu else []) + [exes[n], "probe"], ok=None, timeout=120)
        return n, cpu, rc, out
    plan = [(n, c) for n in ([names[0], names[2], names[8], names[10], names[11]] if not ctx.thorough else names + ["clang", "debug"]) for c in QEMU + [None] if n in exes]
    plan += [("i686", None)] if "i686" in exes else []
    with ThreadPoolExecutor(8) as ex:
        pres = list(ex.map(probe, plan))
    seen = set()
    for n, cpu, rc, out in pres:
        m = re.search(r"PROBE (\d+) (\d) (\d) (\d) (\d+) (\d+) ids (\d) (\d) (\d) (\d) ok (\d)", out)
        have = frozenset(bs[n].available() - {"plain"})
        if not m:
            if "unable to find CPU" in out or "warning" in out and rc == 1 and "uncaught" not in out:
                ctx.add("qemu_models_refused", 1)
                continue
            ctx.violation("on the CPU '%s' the library's first use fails: exit %d %s (configuration %s)" % (cpu, rc, out[-200:].strip(), n), "probe.txt",
                          "# configuration %s\nqemu-x86_64 -cpu %s\n%s\n" % (n, cpu, out))
        g = list(map(int, m.groups()))
        lvl, vl, vbmi, osx, xcr, mx = g[:6]
        mx = 13 if mx >= 13 else 7 if mx >= 7 else 6 if mx >= 2 else mx
        key = (lvl, vl, vbmi, osx, xcr, mx)
        if key not in index:
            ctx.log("vector %s of %s is outside the specification's CPUs" % (key, cpu))
            continue
        want = IDS[RANKED[best[have][index[key]]]]
        seen.add(key)
        ids = g[6:10] if bs[n].codec_symbols() else [want] * 4
        if set(ids) != {want} or not g[10]:
            ctx.violation("on the CPU '%s' %s the library uses %s%s; the best safe codec is %s (configuration %s)" %
                          (cpu or "of this machine", key, [CODEC_IDS.get(i) for i in ids], "" if g[10] else " with wrong results", CODEC_IDS[want], n),
                          "probe.txt", "# configuration %s\nqemu-x86_64 -cpu %s\n%s\n" % (n, cpu, out))
        ctx.traces += 1
        ctx.add("qemu_cpu_runs", 1)
    ctx.cov["qemu_distinct_vectors"] = len(seen)

    # architectures where the compile-time target decides
    ctx.tables()
    for n, want in (("aarch64", "neon64"), ("armhf", "plain"), ("armhf-neon", "neon32"), ("aarch64-none", "plain"), ("armhf-none", "plain"), ("s390x", "plain")):
        b = bs[n]
        if not b.codec_symbols():
            continue
        if n == "armhf" and "__ARM_NEON" in subprocess.run([b.cc, "-dM", "-E", "-x", "c", "/dev/null"], capture_output=True, text=True).stdout:
            want = "neon32"
        exe = ctx.driver(b)
        r = run_family(ctx, b, exe, "enc1", "auto", 1, 4, "auto")
        if r[0] == "bad":
            ctx.violation(open(r[1]).read().splitlines()[0] + " (automatic choice, %s)" % n, n + ".script", open(r[1]).read())
        through = {int(f[5]) for f in (l.split(" ") for l in open(r[2])) if f[0] in "eE" and len(f) > 8}
        if through - {IDS[want]}:
            ctx.violation("the automatic choice on %s is %s, not %s" % (n, [CODEC_IDS.get(i) for i in through], want), n + ".txt", open(r[2]).read()[:4000])
        ctx.add("fixed_choice_architectures", 1)
        ctx.traces += r[1]["recorded"]
    ctx.samples += ["CPU %s -> %s with everything compiled in" % (dict(zip(("lvl", "vl", "vbmi", "osxsave", "xcr0", "maxleaf"), t["vectors"][i])),
                    RANKED[best[frozenset(RANKED[1:])][i]]) for i in range(0, len(t["vectors"]), max(1, len(t["vectors"]) // 5))]
    ctx.assumptions += ["feature flags are consistent along SSSE3<SSE4.1<SSE4.2<AVX<AVX2 and AVX512VBMI implies AVX512F/BW, as on every CPU made",
                        "on ARM the compile-time target states what the CPU supports"]
