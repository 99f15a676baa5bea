"""Builds LLVM IR and native replay binaries from /repo's current tree, runs the symbolic executor,
replays counterexamples and witnesses against the compiled code."""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
BUILD = os.path.join(V, "build")
SX = os.path.join(BUILD, "engine", "sx")
CLANG = shutil.which("clang++-18") or shutil.which("clang++")
LLVM_BIN = "/usr/lib/llvm-18/bin" if os.path.exists("/usr/lib/llvm-18/bin/opt") else os.path.dirname(CLANG)
JOBS = min(8, os.cpu_count() or 8)

class BuildError(Exception):
    pass

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def must(cmd, **kw):
    r = run(cmd, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
    return r.stdout

def engine():
    must(["bash", os.path.join(V, "engine", "build.sh")])

# ---------------------------------------------------------------- sources
def repo_sources():
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, "DPPIR", "**", "*.cc"), recursive=True)):
        b = os.path.basename(f)
        if b.endswith("_test.cc"):
            continue
        rel = os.path.relpath(f, REPO)
        out.append(rel)
    return out

def tree_hash():
    h = hashlib.sha256()
    fs = sorted(glob.glob(os.path.join(REPO, "DPPIR", "**", "*"), recursive=True))
    for d in ("model", "harness", "shadow", "shadow_io", "tools"):
        fs += sorted(glob.glob(os.path.join(V, d, "**", "*"), recursive=True))
    for f in fs:
        if os.path.isfile(f) and not f.endswith((".pyc",)):
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

NATIVE_REDIRECT = None

def redirects():
    """Calls of the code under test that the environment model answers: foo -> sx_foo."""
    global NATIVE_REDIRECT
    if NATIVE_REDIRECT is None:
        names = set()
        for f in ("env.cc",):
            s = open(os.path.join(V, "model", f)).read()
            names |= set(re.findall(r"\bsx_([a-z_][a-z0-9_]*)\s*\(", s))
        s = open(os.path.join(V, "model", "native.cc")).read()
        names |= {"exit", "_exit"}
        keep = set(re.findall(r"\bsx_([a-z_0-9]+)\s*\(", open(os.path.join(V, "model", "sx.h")).read()))
        NATIVE_REDIRECT = sorted(n for n in names if n not in keep)
    return NATIVE_REDIRECT

class Variant:
    """One compilation of repo + model + harness.
    name, harness (file in harness/), defines, exclude (repo-relative sources left out), repo=True/False,
    rename: {repo source: [extra flags]}"""
    def __init__(self, name, harness, defines=(), sources=None, exclude=(), flags=None, buffer_size=400, poll_rate=140000, extra=(), engine_includes=(), includes=(), optional=False):
        self.name, self.harness = name, harness
        self.defines = list(defines)
        self.sources, self.exclude = sources, set(exclude) | {"DPPIR/main.cc", "DPPIR/config/gen_config.cc"}
        self.flags = flags or {}
        self.extra = list(extra)
        self.includes, self.optional = list(includes), optional  # optional: runs are left out if it does not build
        self.engine_includes = list(engine_includes)
        if buffer_size:
            self.defines += ["SX_BUFFER_SIZE=%d" % buffer_size]
        if poll_rate is not None:
            self.defines += ["SX_POLL_RATE=%d" % poll_rate]

    def tus(self):
        srcs = repo_sources()
        if self.sources is not None:
            want = set(self.sources)
            srcs = [s for s in srcs if s in want or any(s.startswith(w) for w in want if w.endswith("/"))]
        srcs = [s for s in srcs if s not in self.exclude or s in self.flags]
        t = [(os.path.join(REPO, s), s.replace("/", "_"), self.flags.get(s, []), True) for s in srcs]
        for m in ("env.cc", "stl.cc", "math.cc"):
            t.append((os.path.join(V, "model", m), "model_" + m, [], False))
        for h in [self.harness] + self.extra:
            t.append((os.path.join(V, "harness", h), "harness_" + h.replace("/", "_"), [], True))
        return t

    def common(self):
        return ["-std=c++17"] + ["-I" + os.path.join(V, i) for i in self.includes] + ["-I" + os.path.join(V, "shadow"), "-I" + REPO, "-I" + os.path.join(V, "model"), "-I" + os.path.join(V, "harness")] + ["-D" + d for d in self.defines]

    def build_ir(self, out):
        os.makedirs(out, exist_ok=True)
        def one(t):
            src, nm, fl, _ = t
            o = os.path.join(out, nm + ".bc")
            inc = ["-I" + os.path.join(V, i) for i in self.engine_includes]
            must([CLANG, "-O1", "-Xclang", "-disable-llvm-passes", "-fno-strict-aliasing", "-fwrapv", "-gline-tables-only",
                  "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-U_FORTIFY_SOURCE", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DSX_ENGINE", "-w", "-emit-llvm", "-c", src, "-o", o] + inc + self.common() + fl)
            return o
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            bcs = list(ex.map(one, [t for t in self.tus()]))
        linked = os.path.join(out, "linked.bc")
        must([os.path.join(LLVM_BIN, "llvm-link"), "-o", linked] + bcs)
        final = os.path.join(out, "all.bc")
        must([os.path.join(LLVM_BIN, "opt"), "-passes=elim-avail-extern,default<O1>", "-vectorize-loops=false", "-vectorize-slp=false", "-unroll-threshold=0", linked, "-o", final])
        for b in bcs + [linked]:
            os.unlink(b)
        return final

    def build_native(self, out):
        os.makedirs(out, exist_ok=True)
        san = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=alignment,vptr", "-fno-sanitize-recover=all"]
        red = []
        for n in redirects():
            red += ["--redefine-sym", "%s=sx_%s" % (n, n)]
        def one(t):
            src, nm, fl, redirect = t
            o = os.path.join(out, nm + ".o")
            must(["g++", "-O1", "-g1", "-w", "-U_FORTIFY_SOURCE", "-fno-strict-aliasing"] + san + ["-c", src, "-o", o] + self.common() + fl)
            if redirect:
                must(["objcopy"] + red + [o])
            return o
        ts = [t for t in self.tus() if not t[0].endswith("model/math.cc")]
        ts.append((os.path.join(V, "model", "native.cc"), "model_native.cc", [], False))
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(one, ts))
        exe = os.path.join(out, "native")
        must(["g++", "-rdynamic"] + san + objs + ["-o", exe, "-ldl", "-lpthread", "-lm", "-lsodium"])
        for o in objs:
            os.unlink(o)
        return exe

SANENV = dict(os.environ, ASAN_OPTIONS="exitcode=11:detect_leaks=0:abort_on_error=0:handle_abort=0:allocator_may_return_null=0:max_allocation_size_mb=4096", UBSAN_OPTIONS="exitcode=11:print_stacktrace=0:halt_on_error=1")

def native_run(exe, entry, args, inputs=None, seed=None, limit=30, keep=None):
    """Returns (kind, lines, stderr): kind in ok, violation, aborted, assumed, diverged, hang."""
    d = tempfile.mkdtemp(prefix="sxn.")
    try:
        rp = keep or os.path.join(d, "replay")
        out = os.path.join(d, "out")
        cmd = [exe, "--entry", entry, "--out", out, "--limit", str(limit)]
        for a in args:
            cmd += ["--arg", str(a)]
        if inputs is not None:
            with open(rp, "w") as f:
                for n, v in inputs:
                    f.write("%s %d\n" % (n.replace(" ", "_"), int(v)))
            cmd += ["--replay", rp]
        else:
            cmd += ["--random", str(seed)]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=SANENV, timeout=limit + 60, cwd=d, stdin=subprocess.DEVNULL)
        lines = open(out, errors="replace").read().splitlines() if os.path.exists(out) else []
        err = r.stderr.decode(errors="replace")
        if "HANG" in lines:
            return "hang", lines, err
        k = {0: "ok", 10: "violation", 11: "violation", 42: "aborted", 77: "assumed", 99: "diverged"}.get(r.returncode, "diverged")
        if k == "diverged" and r.returncode not in (99,):
            lines.append("EXITCODE %d" % r.returncode)
        return k, lines, err
    finally:
        shutil.rmtree(d, ignore_errors=True)
