"""C13..C16: the command-line tool."""
import json, os, random, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from .core import sh, Infra, HARNESS, REPO
from .api import expect_counterexamples


def cli_tables(ctx):
    ctx.tables()
    r = ctx.tlc("CliDump", count=False)
    t = json.load(open(os.path.join(r["dir"], "cli.json")))
    with open(os.path.join(ctx.work, "cli_tables.h"), "w") as f:
        f.write("// Generated by TLC from spec/Cli.tla (CliDump.tla): do not edit.\n")
        f.write("static const uint8_t cli_kept[3][256] = {%s};\n" % ",".join("{%s}" % ",".join(map(str, t[m])) for m in ("strip", "ignore", "none")))
        small, off, text = t["small"], [], []
        for row in small:
            for s in row:
                off.append(len(text)); text += s
        f.write("enum { SMALL_N = %d, SMALL_W = %d };\n" % (len(small), len(small[0])))
        f.write("static const uint16_t small_off[] = {%s};\nstatic const uint16_t small_len[] = {%s};\nstatic const uint8_t small_text[] = {%s};\n" %
                (",".join(map(str, off)), ",".join(str(len(s)) for row in small for s in row), ",".join(map(str, text))))


def driver(ctx):
    exe = os.path.join(ctx.work, "cli")
    sh(["gcc", "-O2", "-g", "-std=gnu11", "-w", "-I" + ctx.work, os.path.join(HARNESS, "cli.c"), "-o", exe], timeout=300)
    return exe


def runs(ctx, jobs):
    """jobs: (tag, build name, exe of the tool, emu, [args]).  Runs the driver
    on all of them; returns [(tag, stats, rec path)]."""
    drv = driver(ctx)

    def one(j):
        tag, bname, exe, emu, args = j
        fail = os.path.join(ctx.work, "fail-" + tag)
        rec = os.path.join(ctx.work, "rec-" + tag)
        if os.path.exists(fail):
            os.unlink(fail)
        cmd = [drv, args[0], "exe=" + exe, "fail=" + fail, "rec=" + rec, "seed=%d" % ctx.seed] + (["emu=" + emu] if emu else []) + args[1:]
        rc, out = sh(cmd, ok=None, timeout=3000 if ctx.thorough else 800)
        return j, rc, out, fail, rec
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    out = []
    for j, rc, o, fail, rec in res:
        if rc == 1 and os.path.exists(fail):
            text = open(fail, errors="replace").read()
            if not any(one(j)[1] == 1 for _ in range(3)):
                raise Infra("a disagreement did not repeat: " + text[:300])
            ctx.violation("%s (configuration %s)" % (text.splitlines()[0][2:], j[1]), "%s.txt" % j[0],
                          "# configuration %s: cli %s\n%s" % (j[1], " ".join(j[4]), text))
        m = re.search(r"STATS (\{.*\})", o)
        if rc or not m:
            raise Infra("cli %s (%s): exit %d\n%s" % (j[4], j[1], rc, o[-1500:]))
        out.append((j, json.loads(m.group(1)), rec))
    return out


def tools(ctx, names):
    bs = ctx.build(names, cli=True)
    return {n: bs[n] for n in bs if os.path.exists(bs[n].cli)}


def account(ctx, res):
    for j, st, rec in res:
        for k, v in st.items():
            if v:
                ctx.add(k, v)
        c = ctx.cov.setdefault("cells", {})
        k = "%s/%s" % (j[1], j[4][0])
        c[k] = c.get(k, 0) + st["runs"]


def validate(ctx, res, module, groups=4, corrupt=None):
    """TLC decides whether the recorded runs are behaviours of the module."""
    text = [open(rec).read() for j, st, rec in res if os.path.exists(rec)]
    sess = []
    for t in text:
        sess += [l for l in t.splitlines() if l] if module == "CliTrace" else ["{\"op\":\"start\"" + s.rstrip("\n") for s in t.split("{\"op\":\"start\"") if s.strip()]
    if not sess:
        return
    gs = [g for g in (sess[i::groups] for i in range(groups)) if g]
    def val(i):
        lines = ['{"op":"config"}'] + "\n".join(gs[i]).split("\n")
        return lines, ctx.validate(lines, "trace%d" % i, count=False, module=module)
    with ThreadPoolExecutor(4) as ex:
        vals = list(ex.map(val, range(len(gs))))
    for lines, (ok, r) in vals:
        if not ok:
            ctx.violation("TLC rejects a recorded run as a behaviour of %s" % module, "trace.ndjson", "\n".join(lines) + "\n# " + r["out"][-1500:].replace("\n", "\n# "))
        ctx.states += r["distinct"]; ctx.transitions += r["states"]
    ctx.traces += len(sess)
    ctx.samples += [s[:500] for s in sess[:: max(1, len(sess) // 4)][:4]]
    # not vacuous: corrupted records are refused
    lines = list(vals[0][0])
    for i in range(len(lines) // 2, len(lines)):
        e = json.loads(lines[i])
        if corrupt(e):
            lines[i] = json.dumps(e)
            if ctx.validate(lines, "corrupt", count=False, module=module)[0]:
                raise Infra("a corrupted trace was accepted: the binding is vacuous")
            ctx.add("corrupted_traces_rejected", 1)
            break


def bad_run(e):
    if e["out"]:
        e["out"][len(e["out"]) // 2] ^= 1
        return True


def bad_io(e):
    if e["op"] == "write" and e["off"] >= 0:
        e["off"] += 1
        return True


def parts(n, tag, bname, exe, args, emu=None):
    return [("%s-%s-%d" % (tag, bname, i), bname, exe, emu, args + ["part=%d" % i, "parts=%d" % n]) for i in range(n)]


def sweep(ctx, what):
    cli_tables(ctx)
    names = ["native", "asan", "i686", "s390x", "aarch64", "emuwritev"] + (["clang", "armhf", "nosimd", "openmp"] if ctx.thorough else [])
    ts = tools(ctx, names)
    if "native" not in ts:
        raise Infra("the tool was not built")
    jobs = []
    for n, b in ts.items():
        bits = ["bits=32"] if n in ("i686", "armhf") else []
        if b.emu:
            jobs += parts(2, what, n, b.cli, [what, "small=%d" % (not ctx.thorough), "nrec=10"] + bits, b.emu)
        elif n == "native":
            jobs += parts(16, what, n, b.cli, [what, "scale=%d" % (8 if ctx.thorough else 2), "nrec=40"])
        else:
            jobs += parts(4, what, n, b.cli, [what, "scale=1", "small=%d" % (not ctx.thorough), "nrec=10"] + bits)
    # streams of more than 4 GiB, first
    n32 = [n for n in ("native", "i686") + (("emuwritev", "clang") if ctx.thorough else ()) if n in ts and not ts[n].emu]
    k = (8 if what == "encode" else 7) if ctx.thorough else 3
    jobs.sort(key=lambda j: not j[3])
    jobs = sum((parts(k, "long", n, ts[n].cli, ["long", "what=" + what, "bits=%d" % (32 if n == "i686" else 64), "scale=%d" % (2 if ctx.thorough else 1)]) for n in n32), []) + jobs
    res = runs(ctx, jobs)
    account(ctx, res)
    validate(ctx, res, "CliTrace", corrupt=bad_run)
    ctx.log("%d runs, %d bytes, %d validated by TLC" % (ctx.cov["runs"], ctx.cov["bytes"], ctx.traces))


def c13(ctx):
    ctx.model(("CliTheory", "CliTheory.cfg"), ("CliPipeMC", "CliPipeEnc.cfg"))
    ctx.unbounded("WrapInf")
    expect_counterexamples(ctx, "CliPipeMC", "CliPipeBad_%s.cfg", (("colreset", "the column is not carried over between blocks"), ("trailer", "no newline after the last line")))
    sweep(ctx, "encode")


def c14(ctx):
    ctx.model(("CliTheory", "CliTheory.cfg"), ("CliPipeMC", "CliPipeDec.cfg"))
    expect_counterexamples(ctx, "CliPipeMC", "CliPipeBad_%s.cfg", (("swallow", "the character after a skipped one is lost"), ("ignoredec", "a decoding error is ignored")))
    sweep(ctx, "decode")


def c15(ctx):
    ctx.model(("CliPipeMC", "CliPipeAll.cfg"), ("CliPipeMC", "CliPipeLong2.cfg" if ctx.thorough else "CliPipeLong.cfg"))
    ctx.unbounded("IoInf")
    expect_counterexamples(ctx, "CliPipeMC", "CliPipeBad_%s.cfg", (("resend", "a partly written vector is sent again"), ("skipvec", "a partly written vector is dropped"), ("nopartial", "a partial write is taken for a complete one"),
                 ("intr", "an interrupted write is taken for a complete one"), ("ignoreerr", "a failed write is ignored"), ("readerr", "a failed read is taken for the end")))
    cli_tables(ctx)
    r = ctx.tlc("CliSched", "CliSched4.cfg" if ctx.thorough else "CliSched.cfg", count=False)
    t = json.load(open(os.path.join(r["dir"], "sched.json")))
    lines = {"r: w:" + ",".join(w) for w in t["writes"]} | {"r:%s w:" % ",".join(x) for x in t["reads"]} | {"r:%s w:%s" % (",".join(x), ",".join(w)) for x, w in t["both"]}
    form = {"write": "r: w:e%d", "partial": "r: w:half,e%d", "read": "r:e%d w:", "short": "r:half,e%d w:"}
    lines |= {form[k] % e for k, e in t["errors"]}
    lines = sorted(lines)
    sched = os.path.join(ctx.work, "sched.txt")
    open(sched, "w").write("\n".join(lines) + "\n")
    ctx.cov["kernel_schedules"] = len(lines)
    ts = tools(ctx, ["native", "emuwritev"] + (["clang", "debug"] if ctx.thorough else []))
    jobs = []
    for n, b in ts.items():
        d = os.path.join(ctx.work, "scratch-" + n)
        os.makedirs(d, exist_ok=True)
        jobs += parts(16, "faults", n, b.cli, ["faults", "sched=" + sched, "dir=" + d, "scale=%d" % (2 if ctx.thorough else 1), "nrec=60"] + (["light=1"] if n == "emuwritev" else []))
        jobs += parts(1, "env", n, b.cli, ["env", "dir=" + d])
    res = runs(ctx, jobs)
    account(ctx, res)
    validate(ctx, res, "CliIOTrace", corrupt=bad_io)
    ctx.assumptions.append("system calls other than read, readv, write, writev, mmap and brk do not carry data or fail; the result of close is not part of the property")
    ctx.log("%d runs, %d system calls decided, %d traces validated" % (ctx.cov["runs"], ctx.cov["syscalls"], ctx.traces))


def longer_vectors(ctx, big):
    """Random longer argument vectors (and every abbreviation of a long option);
    CliOptsEval says what they mean."""
    rng = random.Random(ctx.seed)
    names = ["decode", "help", "ignore-garbage", "no-strip-newlines", "wrap"]
    benign = ["-d", "-i", "-n", "-w5", "-w", "5", "0", "--wrap", "--wrap=3", "--dec", "--ignore-g", "--no", "-din", "-nw7", "-", "F", "--"]
    def token():
        k = rng.randrange(10)
        if k < 4: return rng.choice(benign)
        if k < 7: return rng.choice(big)
        if k < 8: return "-" + "".join(rng.choice("dinnw05xh-") for _ in range(rng.randint(1, 6)))
        n = rng.choice(names)
        return "--" + n[:rng.randint(1, len(n))] + rng.choice(["", "", "", "=", "=4", "x"])
    vs = []
    for n in names:
        for i in range(1, len(n) + 1):
            for tail in ("", "=", "=4", "x", "-"):
                for rest in ([], ["6"], ["-d"], ["F"]):
                    vs.append((["--" + n[:i] + tail] + rest, False))
    for _ in range(60000 if ctx.thorough else 6000):
        vs.append(([rng.choice(benign) if rng.random() < .75 else token() for _ in range(rng.randint(3, 9))], rng.random() < .2))
    for _ in range(20000 if ctx.thorough else 2500):
        vs.append(([token() for _ in range(rng.randint(1, 5))], rng.random() < .2))
    r = ctx.tlc("CliOptsEval", files=[("vectors.json", json.dumps([dict(a=[list(x) for x in a], p=p) for a, p in vs]))], count=False, workers=1)
    return json.load(open(os.path.join(r["dir"], "opts.json")))["rows"]


def c16(ctx):
    ctx.model(("CliOptsMC", "CliOptsMC.cfg"))
    cli_tables(ctx)
    r = ctx.tlc("CliOptsMC", "CliOptsDump.cfg", count=False)
    t = json.load(open(os.path.join(r["dir"], "opts.json")))
    t["rows"] += longer_vectors(ctx, ["".join(x) for x in t["big"]])
    mode = {"strip": 0, "ignore": 1, "none": 2}
    out, kinds = [], {}
    for row in t["rows"]:
        ms = []
        for m in row["m"]:
            if m["kind"] == "run":
                ms.append("R %d %d %d %s" % (m["decode"], mode[m["mode"]], m["w"], m["src"]))
            else:
                ms.append({"error": "E", "help": "H"}[m["kind"]])
            kinds[m["kind"]] = kinds.get(m["kind"], 0) + 1
        ms.sort(key=lambda x: x == "E")
        args = [("".join(a)).encode().hex() or "-" for a in row["a"]]
        out.append("%d %d %s %d %s" % (row["p"], len(ms), " ".join(ms), len(args), " ".join(args)))
    ctx.cov["argument_vectors"] = len(out)
    ctx.cov["meanings"] = kinds
    out.sort()
    ts = tools(ctx, ["native", "i686"] + (["clang"] if ctx.thorough else []))
    jobs = []
    for n, b in ts.items():
        k = 16 if n == "native" else 8
        sub = out if n == "native" or ctx.thorough else out[::7]
        for i in range(k):
            d = os.path.join(ctx.work, "scratch-%s-%d" % (n, i))
            os.makedirs(d)
            p = os.path.join(d, "list")
            open(p, "w").write("\n".join(sub[i::k]) + "\n")
            jobs.append(("opts-%s-%d" % (n, i), n, b.cli, None, ["opts", "list=" + p, "dir=" + d]))
    res = runs(ctx, jobs)
    account(ctx, res)
    ctx.traces += ctx.cov["runs"]
    ctx.samples += out[:: len(out) // 5][:5]
    ctx.log("%d argument vectors, %d runs" % (len(out), ctx.cov["runs"]))
