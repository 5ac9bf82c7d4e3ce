"""Shared machinery: builds of /repo, TLC runs, trace validation, evidence."""
import json, os, re, shutil, subprocess, sys, time, random, zipfile
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar"


class Infra(Exception):
    """The check itself could not do its work (never a verdict)."""


class Violation(Exception):
    def __init__(self, why, replay):
        super().__init__(why)
        self.why, self.replay = why, replay


def sh(cmd, timeout=600, cwd=None, env=None, input=None, ok=(0,)):
    e = dict(os.environ, LC_ALL="C.UTF-8", CCACHE_DISABLE="1")
    for k in ("CFLAGS", "LDFLAGS", "CC", "OPENMP"):
        e.pop(k, None)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=e, input=input,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Infra("timed out after %ss: %s" % (timeout, cmd))
    out = p.stdout.decode("utf-8", "replace")
    if ok is not None and p.returncode not in ok:
        raise Infra("exit %d: %s\n%s" % (p.returncode, cmd, out[-4000:]))
    return p.returncode, out


NOASM = " ".join("-DBASE64_%s_USE_ASM=0" % c for c in ("SSSE3", "SSE41", "SSE42", "AVX", "AVX2"))


def cross(triplet, cpu, emu):
    o = ["-DCMAKE_SYSTEM_NAME=Linux", "-DCMAKE_SYSTEM_PROCESSOR=" + cpu, "-DCMAKE_EXE_LINKER_FLAGS=-static"]
    return dict(cc="/usr/bin/%s-gcc" % triplet, opts=o, emu=emu)


# name -> how the library is built.  sed: edits made to a scratch copy of the
# sources (path, regex, replacement); such a configuration is skipped when the
# pattern is not there (the code was restructured).
CONFIGS = {
    "native": dict(cc="/usr/bin/gcc", opts=[], emu=None),
    "clang": dict(cc="/usr/bin/clang", opts=[], emu=None),
    "noasm": dict(cc="/usr/bin/gcc", opts=[], cflags=NOASM, emu=None),
    "noasmclang": dict(cc="/usr/bin/clang", opts=[], cflags=NOASM, emu=None),
    "debug": dict(cc="/usr/bin/gcc", opts=[], emu=None, build_type="Debug"),
    "asan": dict(cc="/usr/bin/gcc", opts=[], cflags="-fsanitize=address -fno-omit-frame-pointer -O1 -g", emu=None, build_type="None"),
    "nosimd": dict(cc="/usr/bin/gcc", opts=["-DBASE64_WITH_%s=OFF" % x for x in
                   ("SSSE3", "SSE41", "SSE42", "AVX", "AVX2", "AVX512")], emu=None),
    "openmp": dict(cc="/usr/bin/gcc", opts=["-DBASE64_WITH_OpenMP=ON"], emu=None, openmp=True),
    # The same sources with the parallel threshold lowered to the size of the
    # specification's instances.
    "openmp-small": dict(cc="/usr/bin/gcc", opts=["-DBASE64_WITH_OpenMP=ON"], emu=None, openmp=True,
                         sed=[("lib/lib.c", r"^(\s*#\s*define OMP_THRESHOLD)\s+\d+", r"\1 8")]),
    # The tool with its own replacement of writev(2).
    "emuwritev": dict(cc="/usr/bin/gcc", opts=[], cflags="-DEMULATE_WRITEV", emu=None, optional=True),
    "i686": cross("i686-linux-gnu", "i686", None),
    "aarch64": cross("aarch64-linux-gnu", "aarch64", "/usr/bin/qemu-aarch64"),
    "armhf": cross("arm-linux-gnueabihf", "armv7l", "/usr/bin/qemu-arm"),
    "s390x": cross("s390x-linux-gnu", "s390x", "/usr/bin/qemu-s390x"),
    "s390x-w32": dict(cross("s390x-linux-gnu", "s390x", "/usr/bin/qemu-s390x"),
                      cflags="-include %s/w32.h" % HARNESS),
    # The AVX512 codec with its intrinsics replaced by plain C.
    "avx512emu": dict(cc="/usr/bin/gcc", opts=[], emu=None, optional=True, drv=["-DAVX512_EMULATED"],
                      sed=[("cmake/Modules/TargetSIMDInstructionSet.cmake", r'^(\s*set\(COMPILE_FLAGS_AVX512) "-mavx512[^"]*"',
                            r'\1 "-mavx2 -include %s/avx512emu.h"' % HARNESS)]),
    "aarch64-noasm": dict(cross("aarch64-linux-gnu", "aarch64", "/usr/bin/qemu-aarch64"),
                          sed=[("lib/arch/neon64/codec.c", r"^#define BASE64_NEON64_USE_ASM$", "")]),
    "armhf-noasm": dict(cross("arm-linux-gnueabihf", "armv7l", "/usr/bin/qemu-arm"),
                        sed=[("lib/arch/neon32/codec.c", r"^#define BASE64_NEON32_USE_ASM$", "")]),
}
for _n in ("armhf", "armhf-noasm"):
    CONFIGS[_n]["opts"] = CONFIGS[_n]["opts"] + ["-DBASE64_WITH_NEON32=ON"]

# Builds with some of the x86 codecs only.
X86_SIMD = ("SSSE3", "SSE41", "SSE42", "AVX", "AVX2", "AVX512")


def subset_cfg(have):
    """have: subset of X86_SIMD; returns the name of that configuration."""
    name = "x86-" + ("_".join(x.lower() for x in X86_SIMD if x in have) or "none")
    CONFIGS.setdefault(name, dict(cc="/usr/bin/gcc", emu=None,
                       opts=["-DBASE64_WITH_%s=%s" % (x, "ON" if x in have else "OFF") for x in X86_SIMD]))
    return name


CODEC_IDS = {1: "plain", 2: "ssse3", 3: "sse41", 4: "sse42", 5: "avx", 6: "avx2", 7: "avx512", 8: "neon32", 9: "neon64"}
ALL_CODECS = list(CODEC_IDS.values())


class Build:
    """One built configuration of /repo."""
    def __init__(self, name, d, cfg, src):
        self.name, self.dir, self.cfg, self.src = name, d, cfg, src
        self.lib = os.path.join(d, "libbase64.a")
        self.cli = os.path.join(d, "bin", "base64")
        self.config_h = os.path.join(d, "config.h")
        self.cc, self.emu = cfg["cc"], cfg.get("emu")

    def available(self):
        """Codecs compiled in, from the build's configuration."""
        have = {"plain"}
        txt = open(os.path.join(self.dir, "CMakeCache.txt")).read()
        for m in re.finditer(r"^BASE64_WITH_(\w+):\w+=(\w+)", txt, flags=re.M):
            if m.group(2).upper() in ("ON", "1", "TRUE", "YES") and m.group(1).lower() in ALL_CODECS:
                have.add(m.group(1).lower())
        # A NEON codec additionally needs its architecture.
        arch = subprocess.run([self.cc, "-dumpmachine"], capture_output=True, text=True).stdout
        if "aarch64" not in arch:
            have.discard("neon64")
        if not arch.startswith("arm"):
            have.discard("neon32")
        return have

    def codec_symbols(self):
        """Codecs whose two functions are separate global symbols."""
        if not hasattr(self, "_syms"):
            out = subprocess.run(["nm", "-g", "--defined-only", self.lib], capture_output=True, text=True).stdout
            defined = set(re.findall(r" T (\w+)", out))
            self._syms = [a for a in ALL_CODECS if {"base64_stream_encode_" + a, "base64_stream_decode_" + a} <= defined]
        return self._syms

    def run(self, exe, args):
        return ([self.emu] if self.emu else []) + [exe] + list(args)


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, pid)))
        self.work = os.path.join(VERIF, ".work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(VERIF, "replay", pid)
        shutil.rmtree(self.replays, ignore_errors=True)
        os.makedirs(self.replays)
        self.states = self.transitions = self.traces = 0
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.builds = {}
        self.thorough = self.tier == "thorough"

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    # ------------------------------------------------------------ building
    def _build(self, name, want_cli):
        cfg = CONFIGS[name]
        d = os.path.join(self.work, "build-" + name)
        src = REPO
        if cfg.get("sed"):
            src = os.path.join(self.work, "src-" + name)
            shutil.rmtree(src, ignore_errors=True)
            os.makedirs(src)
            for x in ("CMakeLists.txt", "cmake", "include", "lib", "bin", "test"):
                p = os.path.join(REPO, x)
                if os.path.isdir(p):
                    shutil.copytree(p, os.path.join(src, x))
                elif os.path.exists(p):
                    shutil.copy(p, src)
            for path, pat, rep in cfg["sed"]:
                p = os.path.join(src, path)
                try:
                    t = open(p).read()
                except OSError:
                    return None
                t2, n = re.subn(pat, rep, t, flags=re.M)
                if not n:
                    return None
                open(p, "w").write(t2)
        cmd = ["cmake", "-S", src, "-B", d, "-G", "Ninja", "-DCMAKE_C_COMPILER=" + cfg["cc"],
               "-DCMAKE_BUILD_TYPE=" + cfg.get("build_type", "Release"), "-DBASE64_BUILD_TESTS=OFF",
               "-DBASE64_BUILD_CLI=" + ("ON" if want_cli else "OFF"), "-DBASE64_WERROR=OFF",
               "-DCMAKE_POLICY_VERSION_MINIMUM=3.5"] + cfg["opts"]
        if cfg.get("cflags"):
            cmd.append("-DCMAKE_C_FLAGS=" + cfg["cflags"])
        try:
            sh(cmd, timeout=300)
            sh(["ninja", "-C", d], timeout=600)
        except Infra:
            if cfg.get("optional"):
                return None
            raise
        return Build(name, d, cfg, src)

    def build(self, names, cli=False):
        """Builds the configurations in parallel; returns {name: Build}."""
        todo = [n for n in names if n not in self.builds]
        with ThreadPoolExecutor(8) as ex:
            for n, b in zip(todo, ex.map(lambda n: self._build(n, cli), todo)):
                if b is None:
                    self.log("configuration %s does not apply to this tree: skipped" % n)
                else:
                    self.builds[n] = b
        return {n: self.builds[n] for n in names if n in self.builds}

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, files=(), workers=8, timeout=800, props=(), expect_ok=True, tag=None,
            count=True, extra=(), heap="6g", env=None):
        """Runs TLC in a directory of its own.  Returns dict(rc, out, states,
        distinct, dir)."""
        cfg = cfg or module + ".cfg"
        d = os.path.join(self.work, "tlc-" + (tag or cfg[:-4]))
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), d)
        for name, content in files:
            with open(os.path.join(d, name), "w") as f:
                f.write(content)
        cp = ":".join(["/opt/veriftools/tla/" + j for j in sorted(os.listdir("/opt/veriftools/tla")) if j.endswith(".jar")])
        cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC"] + list(props) + ["-cp", cp, "tlc2.TLC", "-workers", str(workers),
               "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"), "-config", cfg] + list(extra) + [module + ".tla"]
        rc, out = sh(cmd, timeout=timeout, cwd=d, ok=None, env=env)
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "").replace("  ", " ")) or \
            re.findall(r"([\d]+) states generated\D+([\d]+) distinct", out.replace(",", ""))
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if count:
            self.states += dist
            self.transitions += gen
        if expect_ok and rc != 0:
            raise Infra("TLC failed on %s/%s (exit %d)\n%s" % (module, cfg, rc, out[-3500:]))
        return dict(rc=rc, out=out, states=gen, distinct=dist, dir=d)

    def model(self, *runs):
        """Model-checks several (module, cfg) pairs; all must pass."""
        with ThreadPoolExecutor(3) as ex:
            fs = {ex.submit(self.tlc, m, c, (), 3, 800, (), True, None, False): (m, c) for m, c in runs}
            for f in as_completed(fs):
                r = f.result()
                self.states += r["distinct"]
                self.transitions += r["states"]
                self.cov.setdefault("models", {})[fs[f][1][:-4]] = {"distinct": r["distinct"], "generated": r["states"]}

    def unbounded(self, module, invs=("Inv",), inductive=True, wrong="Wrong"):
        """Apalache: `invs` for integers of every size - from Init, and (inductive)
        preserved by Next from any state they hold in; and `wrong`, which does not
        hold, is refuted.  A verdict other than the expected one is a mistake in the
        specification; a tool that gives none is noted and nothing more, since TLC
        has judged the bounded instance."""
        runs = [("Init", 0, i, True) for i in invs] + ([("IndInit", 1, i, True) for i in invs] if inductive else [])
        runs.append(("IndInit" if inductive else "Init", 1 if inductive else 0, wrong, False))

        def one(run):
            init, length, inv, holds = run
            d = os.path.join(self.work, "apalache-%s-%s-%s" % (module, init, inv))
            os.makedirs(os.path.join(d, "tmp"), exist_ok=True)
            for f in os.listdir(SPEC):
                if f.endswith(".tla"):
                    shutil.copy(os.path.join(SPEC, f), d)
            try:
                rc, out = sh(["apalache-mc", "check", "--out-dir=" + os.path.join(d, "out"), "--init=" + init, "--length=%d" % length, "--inv=" + inv,
                              module + ".tla"], timeout=240, cwd=d, ok=None, env={"TMPDIR": os.path.join(d, "tmp"), "JVM_ARGS": "-Xmx2g"})
            except (Infra, OSError) as e:
                return run, None, str(e)
            m = re.search(r"The outcome is: (\w+)", out)
            return run, m.group(1) if m else None, out
        with ThreadPoolExecutor(3) as ex:
            res = list(ex.map(one, runs))
        for (init, length, inv, holds), got, out in res:
            if got is None:
                self.log("apalache gave no answer on %s/%s" % (module, inv))
            elif got != ("NoError" if holds else "Error"):
                raise Infra("Apalache: %s of %s from %s: %s\n%s" % (inv, module, init, got, out[-2000:]))
        if all(r[1] for r in res):
            self.cov.setdefault("unbounded", []).append(module)

    def proof(self, module, old, new, limit=300):
        """tlapm: every obligation of the module is proved; with `old` replaced by
        `new`, which makes a theorem false, one is not.  No answer (a prover that
        runs out of time) is noted and nothing more."""
        def one(wrong):
            d = os.path.join(self.work, "tlapm-%s-%d" % (module, wrong))
            os.makedirs(d, exist_ok=True)
            for f in os.listdir(SPEC):
                if f.endswith(".tla"):
                    shutil.copy(os.path.join(SPEC, f), d)
            if wrong:
                t = open(os.path.join(d, module + ".tla")).read()
                if old not in t:
                    raise Infra("%s: %s not found" % (module, old))
                open(os.path.join(d, module + ".tla"), "w").write(t.replace(old, new))
            try:
                with zipfile.ZipFile(os.path.join(os.path.dirname(JAR), "CommunityModules-deps.jar")) as z:
                    z.extractall(os.path.join(d, "cm"), [n for n in z.namelist() if n.endswith(".tla")])
                return sh(["tlapm", "--cleanfp", "--threads", "3", "-I", "cm", module + ".tla"], timeout=limit, cwd=d, ok=None)[1]
            except (Infra, OSError) as e:
                return str(e)
        with ThreadPoolExecutor(2) as ex:
            good, bad = ex.map(one, (0, 1))
        m = re.search(r"All (\d+) obligations proved", good)
        if re.search(r"All (\d+) obligations proved", bad):
            raise Infra("tlapm proves %s with a false assumption" % module)
        if m:
            self.cov.setdefault("proved", {})[module] = int(m.group(1))
        else:
            self.log("tlapm gave no complete proof of %s" % module)

    # ------------------------------------------------------------ tables
    def tables(self):
        """Exports the transducers from B64.tla and renders spec_tables.h."""
        r = self.tlc("Dump", count=False)
        t = json.load(open(os.path.join(r["dir"], "tables.json")))
        h = os.path.join(self.work, "spec_tables.h")
        w = []
        enc, dec = t["enc"], t["dec"]
        E, D = len(enc), len(dec)
        w.append("// Generated by TLC from spec/B64.tla (Dump.tla): do not edit.")
        w.append("enum { ENC_STATES=%d, DEC_STATES=%d, ENC_START=%d, DEC_START=%d, DEC_ERR=%d };" % (E, D, t["enc_start"], t["dec_start"], t["dec_err"]))
        by = {r["id"]: r for r in enc}
        rows = [by[i] for i in range(E)]
        A = lambda n, ty, dim, vals: w.append("static const %s %s%s = {%s};" % (ty, n, dim, ",".join(map(str, vals))))
        A("enc_next", "uint8_t", "[ENC_STATES*256]", [x for r in rows for x in r["next"]])
        A("enc_outn", "uint8_t", "[ENC_STATES*256]", [len(x) for r in rows for x in r["out"]])
        A("enc_out", "uint8_t", "[ENC_STATES*256][2]", ["{%d,%d}" % ((x + [0, 0])[0], (x + [0, 0])[1]) for r in rows for x in r["out"]])
        A("enc_finn", "uint8_t", "[ENC_STATES]", [len(r["final"]) for r in rows])
        A("enc_fin", "uint8_t", "[ENC_STATES][4]", ["{%s}" % ",".join(map(str, (r["final"] + [0] * 4)[:4])) for r in rows])
        by = {r["id"]: r for r in dec}
        rows = [by[i] for i in range(D)]
        A("dec_next", "uint8_t", "[DEC_STATES*256]", [x for r in rows for x in r["next"]])
        A("dec_out", "int16_t", "[DEC_STATES*256]", [(x[0] if x else -1) for r in rows for x in r["out"]])
        A("dec_term", "uint8_t", "[DEC_STATES]", [int(r["terminal"]) for r in rows])
        A("dec_complete", "uint8_t", "[DEC_STATES]", [int(r["complete"]) for r in rows])
        A("dec_n", "uint8_t", "[DEC_STATES]", [r["n"] if r["k"] == "data" else 0 for r in rows])
        A("spec_alpha", "uint8_t", "[64]", t["alpha"])
        A("spec_value", "uint8_t", "[256]", t["value"])
        open(h, "w").write("\n".join(w) + "\n")
        # The call-level return rule of the specification must be the one drv.c
        # derives from these tables (0 when closed on entry or failed on exit).
        for r in dec:
            for b in range(256):
                want = 0 if r["terminal"] or dec[[x["id"] for x in dec].index(t["dec_err"])]["id"] == r["next"][b] else 1
                if r["ret"][b] != want:
                    raise Infra("driver's return rule disagrees with B64.tla")
            if r["ret0"] != (0 if r["terminal"] else 1):
                raise Infra("driver's return rule disagrees with B64.tla")
        self.spec_tables = t
        return h

    def sel_tables(self):
        """Exports what Stream.tla allows each flag to select (SelDump.tla)."""
        r = self.tlc("SelDump", count=False)
        t = json.load(open(os.path.join(r["dir"], "sel.json")))
        ids = {a: i for i, a in CODEC_IDS.items()}
        ids["auto"] = 0
        mask = lambda l: sum(1 << ids[x] for x in l)
        rows = sorted(t["rows"], key=lambda x: x["f"])
        with open(os.path.join(self.work, "sel_tables.h"), "w") as f:
            f.write("// Generated by TLC from spec/Stream.tla (SelDump.tla): do not edit.\n")
            for n, fn in (("first", lambda x: mask(x["first"])), ("later", lambda x: mask(x["later"])), ("keep", lambda x: int(x["keep"]))):
                f.write("static const unsigned short sel_%s[1024] = {%s};\n" % (n, ",".join(str(fn(x)) for x in rows)))
        return t

    # ------------------------------------------------------------ driver
    def driver(self, b, src="drv.c", extra_src=("shim.c",), cflags=(), wrap=True, out=None, libs=()):
        exe = os.path.join(b.dir, out or src[:-2])
        wraps = []
        if wrap:
            codecs = b.codec_symbols()
            for a in codecs:
                wraps += ["-Wl,--wrap=base64_stream_encode_" + a, "-Wl,--wrap=base64_stream_decode_" + a]
            for f in ("malloc", "calloc", "realloc", "free", "aligned_alloc", "memalign", "posix_memalign", "mmap"):
                wraps.append("-Wl,--wrap=" + f)
            cflags = list(cflags) + ["-DSHIM_CODECS=" + " ".join("CODEC(%d,%s)" % (i, a) for i, a in CODEC_IDS.items() if a in codecs)]
        static = [] if b.cfg.get("openmp") else ["-static"]
        sh([b.cc, "-O2", "-g", "-std=gnu11", "-w", "-DBASE64_STATIC_DEFINE", "-Wl,-Map=" + exe + ".map"] + static + list(cflags) +
           ["-I" + self.work, "-I" + os.path.join(b.src, "include"), "-I" + HARNESS, os.path.join(HARNESS, src)] +
           [os.path.join(HARNESS, s) for s in extra_src] + [b.lib, "-o", exe] + wraps +
           (["-fopenmp"] if b.cfg.get("openmp") else []) + b.cfg.get("drv", []) + list(libs), timeout=300)
        self.globals_of(b, exe)
        return exe

    def globals_of(self, b, exe):
        """Where the library's own variables ended up in a driver: EXE.globals
        has their addresses relative to main, and lengths."""
        m = open(exe + ".map", errors="replace").read()
        # " .bss.x\n   0x... 0x10 .../libbase64.a(lib.c.o)", on one line or two
        out, main = [], None
        k = re.search(r"^\s+0x([0-9a-f]+)\s+main$", m, re.M)
        for s in re.finditer(r"^ (\.(?:data|bss|ldata|lbss)\S*|COMMON)\s+0x([0-9a-f]+)\s+0x([0-9a-f]+)\s+(\S+)$", m, re.M):
            if s.group(1).startswith(".data.rel.ro") or int(s.group(3), 16) == 0 or os.path.basename(b.lib) not in s.group(4):
                continue
            out.append((int(s.group(2), 16), int(s.group(3), 16)))
        with open(exe + ".globals", "w") as f:
            if k:
                f.writelines("%d %d\n" % (a - int(k.group(1), 16), n) for a, n in out)
        os.unlink(exe + ".map")

    # ------------------------------------------------------------ traces
    def to_ndjson(self, script, avail):
        """A driver's record -> lines for Trace.tla."""
        ops = {"i": "encode_init", "I": "decode_init", "e": "encode", "d": "decode", "f": "final", "c": "copy",
               "E": "encode_once", "D": "decode_once"}
        lines = [json.dumps({"op": "config", "avail": sorted(avail)})]
        nsess = 0
        for ln in script.splitlines():
            if not ln or ln[0] == "#":
                continue
            if ln[0] == "S":
                lines.append('{"op":"session","cur":"%s"}' % (ln.split()[1] if len(ln) > 2 else "auto"))
                nsess += 1
                continue
            f = ln.split(" ")
            un = lambda s: [] if s == "-" else list(bytes.fromhex(s))
            e = {"op": ops[f[0]], "h": int(f[1])}
            if f[0] in "iIED":
                e["flags"] = int(f[3])
            if f[0] == "c":
                e["h2"] = int(f[2])
            if f[0] in "edED":
                e["src"] = un(f[8])
                e["codec"] = CODEC_IDS.get(int(f[5]), "")
            if f[0] in "edfED":
                e["out"] = un(f[9])
                e["ret"] = int(f[4]) if f[0] in "dD" else 1
            lines.append(json.dumps(e, separators=(",", ":")))
        return lines, nsess

    def validate(self, lines, tag, count=True, module="Trace"):
        """TLC decides whether the recorded calls are a behaviour of Stream."""
        r = self.tlc(module, files=[("trace.ndjson", "\n".join(lines) + "\n")], workers=1, expect_ok=False, tag=tag, count=count, heap="3g",
                     timeout=900)
        if r["rc"] == 0:
            return True, r
        m = re.search(r"Accepted|Postcondition|POSTCONDITION|postcondition", r["out"])
        if not m:
            raise Infra("trace validation did not run\n" + r["out"][-3000:])
        return False, r

    def bind_check(self, lines, tag, module="Trace"):
        """The binding is not vacuous: a corrupted record must be refused."""
        idx = [i for i, l in enumerate(lines) if '"out":[' in l and '"out":[]' not in l]
        if not idx:
            return
        bad = list(lines)
        i = idx[len(idx) // 2]
        e = json.loads(bad[i])
        e["out"][len(e["out"]) // 2] ^= 1
        bad[i] = json.dumps(e)
        ok, _ = self.validate(bad, tag, count=False, module=module)
        if ok:
            raise Infra("a corrupted trace was accepted: the binding is vacuous")
        self.add("corrupted_traces_rejected", 1)

    # ------------------------------------------------------------ verdicts
    def save_replay(self, name, text):
        p = os.path.join(self.replays, name)
        with open(p, "w") as f:
            f.write(text)
        return p

    def violation(self, why, name, text):
        raise Violation(why, self.save_replay(name, text))

    def finish(self, level="model_checking", violations=0):
        cov = dict(self.cov)
        cov.update(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples[:6])
        if level in ("exploration", "fault_enumeration"):
            cov.setdefault("evaluations", 0)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=violations)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(p + ".tmp", p)


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    for ln in open(p):
        m = re.match(r"KNOWN-FINDING: property=(\S+) (.*)", ln.strip())
        if m and m.group(1) == pid:
            out.append(m.group(2))
    return out


def main(pid, fn, level="model_checking"):
    ctx = Ctx(pid)
    rc = 0
    try:
        fn(ctx)
        ctx.finish(level)
        ctx.log("held on everything explored")
    except Violation as v:
        ctx.cov["violation"] = v.why[:500]
        ctx.finish(level, violations=1)
        ctx.log(v.why[:2000])
        print("VIOLATION property=%s replay=%s" % (pid, v.replay), flush=True)
        rc = 1
    except Infra as e:
        print("CHECK ERROR (%s): %s" % (pid, e), file=sys.stderr, flush=True)
        rc = 2
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(ctx.work, ignore_errors=True)
    return rc
