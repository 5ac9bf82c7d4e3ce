"""C19: lengths beyond 31 and 32 bits."""
import json, os, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from .core import sh, Infra, Violation, CODEC_IDS

BASE = 32768


class OutOfMemory(Exception):
    pass


def digits(n):
    return [(n >> (15 * k)) & (BASE - 1) for k in range(4)]


def mem_gb():
    m = re.search(r"MemAvailable:\s+(\d+)", open("/proc/meminfo").read())
    return int(m.group(1)) / 1048576 if m else 32


def c19(ctx):
    ctx.model(("LenMC", "LenMC.cfg"))
    ctx.unbounded("LenInf")
    r = ctx.tlc("LenDump", count=False)
    pr = json.load(open(os.path.join(r["dir"], "len.json")))
    val = lambda d: sum(x << (15 * k) for k, x in enumerate(d))
    enc = {(p["c"], p["d"]): val(p["digits"]) for p in pr["enc"]}
    dec = {(p["c"], p["d"]): val(p["digits"]) for p in pr["dec"]}
    megae = sorted(val(p["digits"]) for p in pr["mega"])
    megad = sorted(val(p["digits"]) for p in pr["megad"])
    ctx.tables()
    names = ["native", "noasm", "openmp", "aarch64"]
    rng = ctx.rng
    has512 = bool(re.search(r"avx512_?vbmi", open("/proc/cpuinfo").read()))
    if not has512:
        names.append("avx512emu")
    if ctx.thorough:
        names += ["clang", "s390x"]
    bs = ctx.build(names)
    exes = {}
    with ThreadPoolExecutor(8) as ex:
        for n, e in zip(bs, ex.map(lambda n: ctx.driver(bs[n], src="len.c", extra_src=(), wrap=False), bs)):
            exes[n] = e
    ctx.log("built %s" % ", ".join(sorted(bs)))

    def chunked(n, op, small):
        a = 1 + rng.randrange(small)
        b = rng.randrange(0, 7)
        return [a, n - a - b, b]

    def split(n, k):
        c = [n // k + rng.randrange(-5, 6) for _ in range(k - 1)]
        return c + [n - sum(c)]

    # sessions: (operation, padding, position of a wrong character or -1, chunks)
    def base(full):
        s = [("ENC", 0, -1, [megae[-1]]), ("DEC", 1, -1, [megad[-1]])]
        s.append(("enc", 0, -1, chunked(enc[(4, 5)], "enc", 2)))
        s.append(("dec", 2, -1, chunked(dec[(8, 8)], "dec", 3)))
        if full:
            s += [("ENC", 0, -1, [n]) for n in sorted(enc.values()) if n not in megae]
            s += [("DEC", rng.randrange(3), -1, [n]) for n in sorted(dec.values()) if n not in megad[-1:]]
            s += [("enc", 0, -1, chunked(megae[-1], "enc", 2)), ("dec", 0, -1, chunked(megad[0], "dec", 3))]
            n = dec[(8, 4)]
            s += [("DEC", 0, n - 3, [n]), ("dec", 0, n - 10, chunked(n, "dec", 3)), ("DEC", 0, (1 << 31) + 6, [n])]
            s += [("enc", 0, -1, split(enc[(8, 5)], 60)), ("dec", 1, -1, split(dec[(8, 8)], 60))]
        return s

    jobs = []
    x86 = ["plain", "ssse3", "sse41", "sse42", "avx", "avx2"] + (["avx512"] if has512 else [])
    for cfg in ("native", "clang"):
        if cfg in bs:
            jobs += [(cfg, c, s, 0) for c in x86 for s in base(ctx.thorough)]
    jobs += [("native", "auto", s, 0) for s in base(True)[2:]]
    jobs += [("noasm", c, s, 0) for c in x86[1:6] for s in base(ctx.thorough)[:2]]
    if "avx512emu" in bs:
        jobs += [("avx512emu", "avx512", s, 0) for s in base(False)[:1]]
    for th in ((3,) if not ctx.thorough else (2, 3, 8)):
        jobs += [("openmp", "auto", s, th) for s in base(False)[:3]]
        n = dec[(8, 4)]
        jobs += [("openmp", "auto", ("DEC", 0, n - 3, [n]), th), ("openmp", "auto", ("ENC", 0, -1, [enc[(8, 5)]]), th), ("openmp", "auto", ("DEC", 0, -1, [dec[(4, 4)]]), th)]
    if "aarch64" in bs and not ctx.thorough:
        jobs[:0] = [("aarch64", "auto", s, 0) for s in (("ENC", 0, -1, [enc[(8, 5)]]), ("DEC", 1, -1, [megad[0]]))]    # (slow)
    if ctx.thorough:
        for cfg in ("aarch64", "s390x"):
            jobs += [(cfg, "auto" if cfg == "aarch64" else "plain", s, 0) for s in (("ENC", 0, -1, [enc[(8, 5)]]), ("DEC", 1, -1, [megad[0]]))]
    avail = mem_gb()
    if avail < 14:
        cut = [j for j in jobs if sum(j[2][3]) <= (1 << 32) + 64]
        ctx.assumptions.append("only %.0f GiB of memory: %d sessions with longer lengths left out" % (avail, len(jobs) - len(cut)))
        jobs = cut
    workers = 2 if avail > 23 else 1
    # sessions of one build and codec share a process, a few at a time
    batches, cur = [], {}
    for cfg, c, s, th in jobs:
        k = (cfg, c, th)
        cur.setdefault(k, []).append(s)
    for k, l in cur.items():
        for i in range(0, len(l), 6):
            batches.append((k, l[i:i + 6]))

    def text(s):
        op, npad, bad, ch = s
        return "%s %s%s\n" % (op, "%d %d " % (npad, bad) if op in ("DEC", "dec") else "", " ".join(map(str, ch)))

    def run(k, sess):
        cfg, c, th = k
        b = bs[cfg]
        tot = max(sum(s[3]) for s in sess)
        outn = max([sum(s[3]) // 3 * 4 + 64 if s[0] in ("ENC", "enc") else sum(s[3]) // 4 * 3 + 64 for s in sess])
        args = [c, str(tot + 64), str(outn)] + ([str(th)] if th else [])
        p = subprocess.run(b.run(exes[cfg], args), input="".join(map(text, sess)), capture_output=True, text=True, timeout=1500,
                           env=dict(os.environ, OMP_WAIT_POLICY="passive", LEN_ALARM="90" if not b.emu else "1200"))
        out = [json.loads(l) for l in p.stdout.splitlines() if l.startswith("{") and l.rstrip().endswith("}") and '"diff":' in l]
        if p.returncode == 0 and len(out) == len(sess):
            return out, None
        if p.returncode in (3,) or p.returncode < 0 and p.returncode != -9:
            return out, "the library crashed (%s)" % ((p.stdout.split("crash: ")+[""])[1].strip() or "signal %d" % -p.returncode)
        if p.returncode in (-9, 137):
            raise OutOfMemory()
        raise Infra("length driver %s: exit %d\n%s%s" % (cfg, p.returncode, p.stdout[-500:], p.stderr[-500:]))

    def record(s, o, omp):
        op, npad, bad, ch = s
        n = sum(ch)
        data = bad if bad >= 0 else n - npad
        return dict(op=o["op"], data=digits(data), bad=bad >= 0, omp=omp, calls=[dict(n=digits(a), outlen=digits(min(l, (1 << 60) - 1)), ret=r) for a, l, r in o["calls"]])

    recs, info = [], []

    crashed = []

    killed = []

    def job(x):
        k, sess = x
        if crashed:
            return k, [], ([], None)
        try:
            r = run(k, sess)
        except OutOfMemory:
            killed.append(x)
            return k, [], ([], None)
        if r[1]:
            crashed.append(k)
        return k, sess, r
    with ThreadPoolExecutor(workers) as ex:
        results = list(ex.map(job, batches))
    again, killed = killed, []
    for x in again:                                # (something else used the memory: one at a time, a little later)
        time.sleep(5)
        results.append(job(x))
    if killed:
        raise Infra("out of memory, twice")
    for k, sess, (out, err) in results:
        if err:
            s = sess[min(len(out), len(sess) - 1)]
            o2, e2 = run(k, [s])
            if e2:
                ctx.violation("%s: %s in configuration %s, codec %s" % (e2, text(s).strip(), k[0], k[1]), "crash-%s-%s.txt" % (k[0], k[1]), text(s))
            raise Infra("a crash did not repeat: %s %s" % (k, text(s)))
        for s, o in zip(sess, out):
            recs.append(record(s, o, k[2] > 0))
            info.append((k, s, o))
            ctx.add("calls", len(o["calls"]))
            ctx.add("bytes", sum(s[3]))

    def judge(rs, tag):
        r = ctx.tlc("LenTrace", files=[("trace.ndjson", "".join(json.dumps(x, separators=(",", ":")) + "\n" for x in rs))], workers=2, expect_ok=False, tag=tag, count=False)
        if r["rc"] == 0:
            return None, r
        m = re.search(r"Invariant (\w+) is violated", r["out"])
        if not m:
            raise Infra("LenTrace did not run\n" + r["out"][-2500:])
        st = re.findall(r"/\\ s = (\d+)", r["out"])
        return (m.group(1), int(st[-1]) - 1), r
    bad, r = judge(recs, "lens")
    if bad:
        inv, i = bad
        k, s, o = info[i]
        o2 = run(k, [s])[0]
        if o2 and o2[0]["calls"] == o["calls"]:
            ctx.violation("%s fails: %s in configuration %s, codec %s gives [length, output length, answer] %s" % (inv, text(s).strip(), k[0], k[1], o["calls"]),
                          "length-%s-%s.txt" % (k[0], k[1]), text(s) + json.dumps(o))
        raise Infra("a wrong length did not repeat: %s" % text(s))
    ctx.states += r["distinct"]
    ctx.transitions += r["states"]
    ctx.traces += len(recs)
    for k, s, o in info:
        if o["diff"] != -1 and not (k[2] and s[2] >= 0 and o["calls"][0][1] == 0):
            o2 = run(k, [s])[0]
            if o2 and o2[0]["diff"] == o["diff"]:
                ctx.violation("the output of %s in configuration %s, codec %s differs from the specification at offset %d" % (text(s).strip(), k[0], k[1], o["diff"]),
                              "content-%s-%s.txt" % (k[0], k[1]), text(s) + json.dumps(o))
            raise Infra("a wrong content did not repeat: %s" % text(s))
    corrupt = [json.loads(json.dumps(x)) for x in recs[:3]]
    corrupt[-1]["calls"][0]["outlen"][2] ^= 4
    if judge(corrupt, "lens-bad")[0] is None:
        raise Infra("a corrupted record was accepted: the binding is vacuous")
    ctx.add("corrupted_traces_rejected", 1)
    cells = {}
    for k, s, o in info:
        n = "%s/%s%s" % (k[0], k[1], "/%d threads" % k[2] if k[2] else "")
        cells[n] = cells.get(n, 0) + 1
    ctx.cov["cells"] = cells
    ctx.cov["largest_input"] = max(sum(s[3]) for _, s, _ in info)
    ctx.cov["largest_output"] = max(sum(c[1] for c in o["calls"]) for _, _, o in info)
    ctx.samples += [json.dumps(o) for _, _, o in info[:: max(1, len(info) // 4)]][:4]
    ctx.assumptions.append("the bytes of a session repeat with a period of 4190208; 64-bit targets only")
    ctx.log("%d sessions, %d calls, %.0f GB" % (len(recs), ctx.cov["calls"], ctx.cov["bytes"] / 1e9))
