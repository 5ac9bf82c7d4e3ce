"""C01..C07, C11, C12: the library's calls against the transducers."""
import os, json
from concurrent.futures import ThreadPoolExecutor
from .core import sh, Infra, Violation, ALL_CODECS, CODEC_IDS

X86 = ["plain", "ssse3", "sse41", "sse42", "avx", "avx2", "avx512"]


def jobs_for(ctx, per_codec=True):
    """(configuration, codec selector, weight) triples that make up a sweep."""
    j = []
    for c in X86 + ["auto"]:
        j.append(("native", c, "full"))
    for c in X86[1:6]:
        j.append(("noasm", c, "full" if ctx.thorough else "mid"))
    j.append(("avx512emu", "avx512", "mid"))
    j.append(("i686", "all", "mid"))
    j.append(("aarch64", "all", "emu"))
    j.append(("armhf", "all", "emu"))
    j.append(("s390x", "all", "emu"))
    j.append(("s390x-w32", "all", "emu"))
    if ctx.thorough:
        for c in X86:
            j.append(("clang", c, "full"))
            j.append(("noasmclang", c, "mid"))
            j.append(("debug", c, "mid"))
        j += [("aarch64-noasm", "all", "emu"), ("armhf-noasm", "all", "emu"),
              ("i686", "auto", "mid"), ("aarch64", "auto", "emu"), ("armhf", "auto", "emu"), ("s390x", "auto", "emu")]
    else:
        j += [("aarch64-noasm", "neon64", "emu"), ("armhf-noasm", "neon32", "emu")]
    return j


SCALE = {"quick": {"full": 4, "mid": 2, "emu": 1}, "thorough": {"full": 24, "mid": 8, "emu": 3}}


def run_family(ctx, b, exe, family, codec, scale, nrec, tag, extra=()):
    fail = os.path.join(b.dir, "fail-%s" % tag)
    rec = os.path.join(b.dir, "rec-%s" % tag)
    for p in (fail, rec):
        if os.path.exists(p):
            os.unlink(p)
    args = [family, "seed=%d" % ctx.seed, "scale=%d" % scale, "codec=" + codec, "fail=" + fail, "rec=" + rec, "nrec=%d" % nrec, "globals=" + exe + ".globals"] + list(extra)
    rc, out = sh(b.run(exe, args), timeout=1700 if ctx.thorough else 800, ok=None)
    st = None
    for ln in out.splitlines():
        if ln.startswith("STATS "):
            st = json.loads(ln[6:])
    if rc == 0 and st is not None:
        return ("ok", st, rec, args)
    if rc == 1 and os.path.exists(fail):
        return ("bad", fail, rec, args)
    raise Infra("driver %s %s %s: exit %d\n%s" % (b.name, family, codec, rc, out[-2000:]))


def confirm(ctx, b, exe, family, codec, scale, fail, tag, extra=()):
    """A disagreement counts only if it repeats; small sessions are also shown
    to TLC, which must refuse them as behaviours of Stream.tla."""
    text = open(fail).read()
    for _ in range(5 if family == "omp" else 3):    # (races; addresses)
        again = run_family(ctx, b, exe, family, codec, scale, 0, tag + "-again", extra)
        if again[0] == "bad":
            break
    if again[0] != "bad":
        raise Infra("a disagreement did not repeat (%s %s %s): %s" % (b.name, family, codec, text[:300]))
    why = text.splitlines()[0][2:]
    verdict = "session too large for trace validation"
    body = [l for l in text.splitlines() if l and l[0] != "#"]
    if body and sum(map(len, body)) < 60000 and " -99 " not in text and " -98 " not in text and family not in ("bounds", "omp"):
        lines, _ = ctx.to_ndjson("\n".join(body), set(ALL_CODECS))
        ok, r = ctx.validate(lines, "reject-" + tag, count=False)
        verdict = "TLC accepts the recorded answers (the failure is outside them)" if ok else "TLC rejects the recorded session as a behaviour of Stream.tla"
    text = "# configuration %s, codec %s\n# %s\n%s" % (b.name, codec, verdict, text)
    raise Violation("%s (configuration %s, codec %s; %s)" % (why, b.name, codec, verdict),
                    ctx.save_replay("%s-%s-%s.script" % (b.name, codec, family), text))


def sweep(ctx, family, jobs, nrec=6, wrap=True, extra=(), scale_mul=1.0, module="Trace", extra_for=lambda j: ()):
    h = ctx.tables()
    bs = ctx.build(sorted({j[0] for j in jobs}))
    jobs = [j for j in jobs if j[0] in bs]
    exes = {}
    with ThreadPoolExecutor(8) as ex:
        for n, e in zip(bs, ex.map(lambda n: ctx.driver(bs[n], wrap=wrap), bs)):
            exes[n] = e
    ctx.log("built %s" % ", ".join(sorted(bs)))
    sc = SCALE[ctx.tier]

    def one(j):
        name, codec, w = j
        scale = max(1, int(sc[w] * scale_mul))
        return j, scale, run_family(ctx, bs[name], exes[name], family, codec, scale, nrec, "%s-%s" % (family, codec), list(extra) + list(extra_for(j)))

    recs, edges_e, edges_d = [], 0, 0
    # slowest first
    order = sorted(jobs, key=lambda j: {"emu": 0, "full": 1, "mid": 2}[j[2]])
    with ThreadPoolExecutor(8) as ex:
        results = list(ex.map(one, order))
    lone = None
    for j, scale, r in results:
        if r[0] == "bad":
            try:
                confirm(ctx, bs[j[0]], exes[j[0]], family, j[1], scale, r[1], "%s-%s" % (family, j[1]), list(extra) + list(extra_for(j)))
            except Infra as e:                      # another one may repeat
                lone = lone or e
    if lone:
        raise lone
    cells = {}
    for j, scale, r in results:
        st = r[1]
        if not st.get("calls"):
            continue
        ctx.add("calls", st["calls"])
        ctx.add("sessions", st["sessions"])
        ctx.add("transducer_steps", st["steps"])
        for k in ("orders", "orders_kept"):
            if st.get(k):
                ctx.add(k, st[k])
        ctx.add("ret1", st["ret1"]); ctx.add("ret0", st["ret0"])
        edges_e, edges_d = max(edges_e, st["enc_edges"]), max(edges_d, st["dec_edges"])
        cells["%s/%s" % (j[0], j[1])] = st["calls"]
        recs.append((j, open(r[2]).read()))
    ctx.cov["cells"] = cells
    ctx.cov["encoder_transitions_covered"] = "%d of %d" % (edges_e, 21 * 256)
    ctx.cov["decoder_transitions_covered"] = "%d of %d" % (edges_d, 88 * 256)
    # trace validation of what was recorded (several TLC runs side by side)
    script, n = [], 0
    for j, t in recs:
        script.append(t)
    text = "".join(script)
    sessions = ["S " + s for s in text.split("S ") if s.strip()]
    groups = [sessions[i::4] for i in range(4)]
    groups = [g for g in groups if g]
    def val(i):
        lines, ns = ctx.to_ndjson("".join(groups[i]), set(ALL_CODECS))
        ok, r = ctx.validate(lines, "trace%d" % i, count=False, module=module)
        return lines, ns, ok, r
    with ThreadPoolExecutor(4) as ex:
        vals = list(ex.map(val, range(len(groups))))
    for lines, ns, ok, r in vals:
        if not ok:
            ok2, _ = ctx.validate(lines, "trace-again", count=False, module=module)
            if not ok2:
                ctx.violation("TLC rejects a recorded trace as a behaviour of Stream.tla", "trace.ndjson",
                              "\n".join(lines) + "\n# " + r["out"][-1500:].replace("\n", "\n# "))
        ctx.traces += ns
        ctx.states += r["distinct"]
        ctx.transitions += r["states"]
    if vals:
        ctx.bind_check(vals[0][0], "trace-corrupt", module)
        ctx.samples += [s[:400] for s in sessions[:: max(1, len(sessions) // 4)][:4]]
    ctx.log("%d calls, %d transducer steps, %d traces validated" % (ctx.cov.get("calls", 0), ctx.cov.get("transducer_steps", 0), ctx.traces))


def c01(ctx):
    ctx.model(("Theory", "TheoryEnc2.cfg"), ("Theory", "TheoryEnc7.cfg"))
    sweep(ctx, "enc1", jobs_for(ctx))


def split_proof(ctx):
    """Inputs of any length, cut anywhere (takes minutes: thorough only)."""
    if ctx.thorough:
        ctx.proof("SplitProof", "NEW b \\in Seq(Byte), b # << >>", "NEW b \\in Seq(Byte)", limit=800)


def c02(ctx):
    ctx.model(("StreamMC", "StreamEnc.cfg"))
    split_proof(ctx)
    sweep(ctx, "encs", jobs_for(ctx))


def c03(ctx):
    ctx.model(("RoundTrip", "RoundTrip.cfg"))
    sweep(ctx, "decvalid", jobs_for(ctx))


def c04(ctx):
    ctx.model(("Theory", "TheoryDec2.cfg"), ("Theory", "TheoryDec9.cfg"), ("AcceptLink", "AcceptLink.cfg"))
    ctx.unbounded("AcceptInf")
    sweep(ctx, "decbad", jobs_for(ctx))


def c05(ctx):
    ctx.model(("StreamMC", "StreamDec.cfg"))
    split_proof(ctx)
    sweep(ctx, "decs", jobs_for(ctx))


def c06(ctx):
    ctx.model(("StreamMC", "StreamDec.cfg"))
    if ctx.thorough:
        stream_proof(ctx)
    sweep(ctx, "latch", jobs_for(ctx))


def all_jobs(ctx):
    j = [("native", "all", "full"), ("noasm", "all", "mid"), ("i686", "all", "mid"), ("aarch64", "all", "emu"),
         ("armhf", "all", "emu"), ("s390x", "all", "emu"), ("s390x-w32", "all", "emu"), ("native", "auto", "mid"), ("avx512emu", "avx512", "mid")]
    if ctx.thorough:
        j += [("clang", "all", "full"), ("debug", "all", "mid"), ("aarch64-noasm", "all", "emu"), ("armhf-noasm", "all", "emu")]
    return j


def c07(ctx):
    ctx.model(("StreamMC", "StreamMulti.cfg"))
    sweep(ctx, "switch", all_jobs(ctx), nrec=20)


def expect_counterexample(ctx, module, cfg, what):
    """Non-vacuity: a broken variant of the design must be refused by TLC."""
    r = ctx.tlc(module, cfg, workers=2, expect_ok=False, count=False, heap="3g")
    if r["rc"] == 0 or "is violated" not in r["out"] and "violated" not in r["out"]:
        raise Infra("%s/%s: TLC was expected to find a counterexample (%s)" % (module, cfg, what))
    ctx.cov.setdefault("broken_variants_refused", []).append(what)


def expect_counterexamples(ctx, module, fmt, cases):
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda c: expect_counterexample(ctx, module, fmt % c[0], c[1]), cases))


def c10(ctx):
    ctx.model(("OmpMC", "OmpEnc.cfg"), ("OmpMC", "OmpDec.cfg"), ("OmpMC", "OmpDecShapes.cfg"))
    expect_counterexample(ctx, "OmpMC", "OmpDecOld.cfg", "parts ending in padding accepted in the middle (before 2c2d296)")
    ctx.model(("OmpRace", "OmpRace.cfg"), ("OmpRace", "OmpRaceHist.cfg"))
    ctx.unbounded("OmpInf")
    expect_counterexamples(ctx, "OmpRace", "OmpRaceBad_%s.cfg", (("len", "workers share the length"), ("state", "workers share the stream state"),
                           ("total", "workers add to a shared total without a lock")))
    plans = []
    for n in (2, 3):
        r = ctx.tlc("OmpPlans", "OmpPlans%d.cfg" % n, count=False)
        plans += json.load(open(os.path.join(r["dir"], "plans.json")))
    ctx.cov["worker_orders"] = len(plans)
    pf = os.path.join(ctx.work, "plans.txt")
    with open(pf, "w") as f:
        f.writelines(" ".join(str(3 * w + k) for w, k in p) + "\n" for p in plans)
    os.environ["OMP_WAIT_POLICY"] = "passive"
    jobs = [("openmp", c, "full") for c in ("plain", "ssse3", "avx", "avx2", "avx512", "auto")]
    jobs += [("openmp-small", c, "full") for c in ("plain", "avx2", "auto")]
    if ctx.thorough:
        jobs += [("openmp", c, "full") for c in ("sse41", "sse42")]
    sweep(ctx, "omp", jobs, nrec=30, module="OmpTrace", extra_for=lambda j: ["thr=8" if j[0] == "openmp-small" else "thr=20000", "plans=" + pf])
    ctx.log("%d runs under a given order of the workers' calls, %d kept to it" % (ctx.cov.get("orders", 0), ctx.cov.get("orders_kept", 0)))


def c11(ctx):
    ctx.model(("StreamMC", "StreamEnc.cfg"), ("Footprint", "Footprint.cfg"))
    ctx.unbounded("FootprintInf", ("Inside", "Enough"), inductive=False)
    expect_counterexamples(ctx, "Footprint", "FootprintBad_%s.cfg", (("guard", "guards one byte too weak"), ("leak", "a round that changes its caller's registers")))
    foot = lambda j: os.path.join(ctx.work, "foot-%s-%s" % (j[0], j[1]))
    jobs = jobs_for(ctx)
    sweep(ctx, "bounds", jobs, nrec=0, extra_for=lambda j: ["foot=" + foot(j)])
    lines = []
    for j in jobs:
        if os.path.exists(foot(j)):
            lines += open(foot(j)).read().split("\n")[:-1]
    groups = [lines[i::4] for i in range(4)]
    with ThreadPoolExecutor(4) as ex:
        vals = list(ex.map(lambda i: ctx.validate(groups[i], "foot%d" % i, count=False, module="FootTrace"), range(4)))
    for g, (ok, r) in zip(groups, vals):
        if not ok:
            i = max(0, r["diameter"] - 1) if r.get("diameter") else 0
            ctx.violation("TLC refuses a recorded footprint: " + g[min(i, len(g) - 1)], "footprints.ndjson", "\n".join(g))
        ctx.states += r["distinct"]
        ctx.transitions += r["states"]
    bad = json.loads(lines[len(lines) // 2])
    for k, v in (("hi", bad["hi"] + 4096), ("lo", -1), ("touched", ["errno"])):
        if ctx.validate([json.dumps(dict(bad, **{k: v}))], "foot-bad-" + k, count=False, module="FootTrace")[0]:
            raise Infra("a corrupted footprint was accepted: the binding is vacuous")
        ctx.add("corrupted_traces_rejected", 1)
    ctx.traces += len(lines)
    ctx.cov["footprints_validated"] = len(lines)
    ctx.log("%d footprints validated" % len(lines))


def stream_proof(ctx):
    """Any number of streams, any data and flags: isolation, copies, initialising, closed streams."""
    ctx.proof("StreamProof", "Others(h) == \\A g \\in Handles \\ {h} :", "Others(h) == \\A g \\in Handles :")


def c12(ctx):
    ctx.model(("StreamMC", "StreamMulti.cfg"))
    stream_proof(ctx)
    sweep(ctx, "multi", all_jobs(ctx), nrec=20)


THR = {"openmp": 20000, "openmp-small": 8}    # where a call is divided among threads


def c17(ctx):
    """Forcing codecs: sequences from a process's first call on, per build."""
    os.environ["OMP_WAIT_POLICY"] = "passive"
    from .core import subset_cfg
    ctx.model(("FlagMC", "FlagPlain.cfg"), ("FlagMC", "FlagAvx2.cfg"), ("FlagMC", "FlagMix.cfg"))
    ctx.tables()
    sel = ctx.sel_tables()
    names = ["native", "noasm", "nosimd", subset_cfg(["AVX2"]), subset_cfg(["SSSE3", "AVX512"]), subset_cfg(["SSE41", "AVX"]),
             subset_cfg(["SSE42"]), "i686", "aarch64", "armhf", "s390x", "openmp", "openmp-small"]
    if ctx.thorough:
        names += ["clang", "debug"] + [subset_cfg([x for k, x in enumerate(("SSSE3", "SSE41", "SSE42", "AVX", "AVX2", "AVX512")) if m >> k & 1])
                                                for m in (3, 9, 21, 42, 38, 31, 62)]
    bs = ctx.build(names)
    # the flag values themselves are part of the interface
    want = {x["name"]: 1 << x["bit"] for x in sel["bits"]}
    def prep(n):
        b = bs[n]
        wrapped = {"plain"} <= set(b.codec_symbols())
        full = set(b.codec_symbols()) >= set(want)
        return ctx.driver(b, cflags=["-DSEL_TABLES"] + (["-DSHIM_SUB"] if wrapped else []), out="drv-flags"), full
    with ThreadPoolExecutor(8) as ex:
        exes = dict(zip(bs, ex.map(prep, bs)))
    ctx.log("built %s" % ", ".join(sorted(bs)))

    def one(n):
        b = bs[n]
        exe, full = exes[n]
        emu = bool(b.emu)
        scale = (4 if ctx.thorough else 1)
        every = (4 if ctx.thorough else 25) if emu else (4 if ctx.thorough else 10) if n.startswith("openmp") else 1
        return n, run_family(ctx, b, exe, "flags", "all", scale, 0 if n in THR else 24, "flags",
                             (["thr=%d" % THR[n]] if n in THR else []) + ["avail=" + ",".join(sorted(b.available())), "every=%d" % every, "multi=%d" % full])
    with ThreadPoolExecutor(8) as ex:
        results = list(ex.map(one, sorted(bs, key=lambda n: not bs[n].emu)))
    for n, r in results:
        if r[0] == "bad":
            text = open(r[1]).read()
            if not any(one(n)[1][0] == "bad" for _ in range(3)):
                raise Infra("a disagreement did not repeat: " + text[:300])
            body = [l for l in text.splitlines() if l and l[0] != "#"]
            lines, _ = ctx.to_ndjson("\n".join(body), bs[n].available())
            ok, _ = ctx.validate(lines, "reject", count=False)
            why = text.splitlines()[0][2:] + " (configuration %s; TLC %s)" % (n, "accepts the recorded answers" if ok else "rejects the recorded session as a behaviour of Stream.tla")
            ctx.violation(why, "%s.script" % n, "# configuration %s avail=%s\n%s" % (n, ",".join(sorted(bs[n].available())), text))
    def val(x):
        n, r = x
        lines, ns = ctx.to_ndjson(open(r[2]).read(), bs[n].available())
        return n, lines, ns, ctx.validate(lines, "trace-" + n, count=False)
    with ThreadPoolExecutor(4) as ex:
        vals = list(ex.map(val, [x for x in results if x[0] not in THR]))
    first = None
    for n, lines, ns, (ok, r) in vals:
        if not ok:
            ctx.violation("TLC rejects a recorded trace as a behaviour of Stream.tla (%s)" % n, "trace-%s.ndjson" % n, "\n".join(lines))
        ctx.traces += ns
        ctx.states += r["distinct"]; ctx.transitions += r["states"]
        if n == "native":
            first = lines
    if first:
        ctx.bind_check(first, "corrupt")
        ctx.samples += first[1:5]
    for n, r in results:
        st = r[1]
        for k in ("calls", "sessions", "ret0", "ret1", "retm1"):
            ctx.add(k, st[k])
        ctx.cov.setdefault("cells", {})[n] = st["sessions"]
    ctx.assumptions.append("codecs the CPU lacks are observed at their entry point and stood in for by the plain codec")
    ctx.log("%d processes, %d calls, %d traces" % (ctx.cov["sessions"], ctx.cov["calls"], ctx.traces))
