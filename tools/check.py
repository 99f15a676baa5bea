#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's current tree.
exit 0 held on everything explored; exit 1 + VIOLATION line; exit 2 no answer."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sxlib
from run import Run
from sxlib import V, BUILD, SX, BuildError, native_run

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.violations, self.errors, self.known = [], [], []
        self.undecided = {}  # run label -> why the encoding gave no verdict on it
        self.replayed = 0
        self.native_runs = 0
        self.samples = []
        self.notes = []
        self.lock = threading.Lock()
        self.t0 = time.time()
        self.exes, self.irs = {}, {}
        self.stop = False
        self.first = None

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

def load_known(pid):
    out = []
    p = os.path.join(V, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                d = json.loads(l)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out

def report(ctx, run, kind, msg, where, inputs, native_lines, native_kind):
    key = "%s %s %s" % (run.label, msg, where)
    m = re.match(r"(C\d\d): ", msg)
    if m and m.group(1) != ctx.pid and m.group(1) not in ctx.also:
        ctx.notes.append("%s: another property fails: %s" % (run.label, msg))
        return
    for k in load_known(ctx.pid):
        if re.search(k["match"], key):
            line = "KNOWN-FINDING: property=%s %s" % (ctx.pid, k["what"])
            if line not in ctx.known:
                ctx.known.append(line)
            return
    if len(ctx.violations) >= 3:
        ctx.stop = True
        return
    d = os.path.join(BUILD, "replays")
    os.makedirs(d, exist_ok=True)
    n = len(ctx.violations)
    p = os.path.join(d, "%s-%d.json" % (ctx.pid, n))
    json.dump({"property": ctx.pid, "variant": run.variant, "entry": run.entry, "args": run.args, "kind": kind, "message": msg, "where": where,
               "inputs": inputs, "native": {"outcome": native_kind, "output": native_lines[-30:]}}, open(p, "w"), indent=1)
    ctx.violations.append(p)
    ctx.first = ctx.first or time.time()
    ctx.log("violation in %s: %s [%s] at %s; real code: %s %s" % (run.label, msg, kind, where, native_kind, native_lines[-2:]))
    print("VIOLATION property=%s replay=%s" % (ctx.pid, p), flush=True)

def over(ctx):
    """A violation is known: what else there is to find is given another while only."""
    return ctx.first and time.time() > ctx.first + 30

def sx_run(ctx, run, budget):
    if ctx.stop or over(ctx):
        return None
    if time.time() > ctx.deadline - 5:
        return {"fatal": "no time left for this run"}
    out = tempfile.mktemp(dir=ctx.dir, suffix=".json")
    mt = min(run.max_time or budget, ctx.deadline - time.time())
    cmd = [SX, ctx.irs[run.variant], "--entry", run.entry, "--out", out, "--max-time", str(int(mt)), "--seed", str(ctx.seed)]
    cmd += run.opts
    for a in run.args:
        cmd += ["--arg", str(a)]
    limit = min(time.time() + mt + 90, ctx.deadline + 60)
    with open(out + ".err", "w+") as ef:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef)
        while p.poll() is None:
            if time.time() > limit or over(ctx):
                p.kill()
                p.wait()
                break
            try:
                p.wait(0.1)
            except subprocess.TimeoutExpired:
                pass
        ef.seek(0)
        rc, err = p.returncode, ef.read()
    os.unlink(out + ".err")
    if not os.path.exists(out):
        return {"fatal": "executor failed (%s): %s" % (rc, err[-500:])}
    try:
        return json.load(open(out))
    except Exception as e:
        return {"fatal": "bad executor output: %s" % e}
    finally:
        if os.path.exists(out):
            os.unlink(out)

def notes_of(lines):
    o = []
    for l in lines:
        if l.startswith("NOTE "):
            _, n, v = l.rsplit(" ", 2) if l.count(" ") == 2 else (None, l[5:].rsplit(" ", 1)[0], l.rsplit(" ", 1)[1])
            o.append([n, int(v)])
    return o

def undecided(ctx, run, why):
    with ctx.lock:
        ctx.undecided.setdefault(run.label, why)

def handle(ctx, run):
    """One symbolic run and everything that follows from it."""
    res = sx_run(ctx, run, ctx.budget)
    run.res = res
    if res is None:
        return
    if "fatal" in res:
        undecided(ctx, run, res["fatal"])
        return
    if run.custom:
        run.custom(ctx, run, res)
        return
    exe = ctx.exes.get(run.variant)
    for v in res["violations"]:
        k, lines, err = native_run(exe, run.entry, run.args, v["inputs"])
        if k in ("violation", "hang"):
            last = [l for l in lines if l.split(" ")[0] in ("FAIL", "ASSERT", "SIGNAL", "HANG", "SANITIZER", "EXIT")]
            san = [l for l in err.splitlines() if "ERROR: AddressSanitizer" in l or "runtime error" in l or "Assertion" in l][:1]
            with ctx.lock:
                report(ctx, run, v["kind"], v["msg"], v["where"], v["inputs"], last + san, k)
            if ctx.stop:
                return
        elif run.confirm and native_run(exe, run.confirm, run.confirm_args or run.args, None, seed=ctx.seed)[0] == "violation":
            k, lines, err = native_run(exe, run.confirm, run.confirm_args or run.args, None, seed=ctx.seed)
            with ctx.lock:
                report(ctx, run, v["kind"], v["msg"], v["where"], v["inputs"], lines[-3:], "violation in %s" % run.confirm)
        elif run.soft:
            with ctx.lock:
                ctx.notes.append("%s: undecided, a counterexample of the abstraction is not one of the real code: %s" % (run.label, v["msg"]))
        else:
            undecided(ctx, run, "counterexample not reproduced by the real code (%s %s): %s at %s" % (k, lines[-2:], v["msg"], v["where"]))
    for e in res["errors"]:
        if run.soft:
            with ctx.lock:
                ctx.notes.append("%s: %s" % (run.label, e))
        else:
            undecided(ctx, run, e)
    if not res["violations"]:
        if res["missing_goals"] and res["complete"]:
            confirm_missing(ctx, run, res)
        if run.need and res["complete"] and run.need not in res["covers"] and not res["missing_goals"] and not res["errors"]:
            undecided(ctx, run, "vacuous, no path reached '%s'" % run.need)
    for w in res["witnesses"][: ctx.nwit]:
        if ctx.stop:
            return
        if w.get("aborted"):
            k, lines, err = native_run(exe, run.entry, run.args, w["inputs"])
            good = k == "aborted"
        else:
            k, lines, err = native_run(exe, run.entry, run.args, w["inputs"])
            good = k == "ok" and notes_of(lines) == [[n, v] for n, v in w["notes"]]
        if good:
            with ctx.lock:
                ctx.replayed += 1
                if len(ctx.samples) < 4 and len(w["inputs"]) <= 400:
                    ctx.samples.append({"run": run.label, "inputs": w["inputs"][:40], "observed": w["notes"][:20]})
        elif not res["violations"]:
            san = [l for l in err.splitlines() if "ERROR: AddressSanitizer" in l or "runtime error" in l or "Assertion" in l][:1]
            undecided(ctx, run, "real code disagrees with the symbolic path: %s %s %s vs %s" % (k, lines[-3:], san, w["notes"][-3:]))

def confirm_missing(ctx, run, res):
    """A behaviour that must be possible was proved unreachable: look for it in the real code."""
    exe = ctx.exes[run.variant]
    missing = set(res["missing_goals"])
    entry, args = run.confirm or run.entry, run.confirm_args if run.confirm_args is not None else run.args
    tries = 1 if run.confirm else 300
    seen = False
    lines = []
    for s in range(tries):
        k, lines, err = native_run(exe, entry, args, None, seed=ctx.seed * 1000 + s)
        ctx.native_runs += 1
        if run.confirm:
            seen = k != "violation"
            break
        if any(l.startswith("COVER ") and l[6:] in missing for l in lines):
            seen = True
            break
    if seen:
        undecided(ctx, run, "unreachable for the solver but seen in the real code: %s" % sorted(missing)[:3])
    else:
        with ctx.lock:
            report(ctx, run, "unreachable", "required outcome cannot occur: %s" % ", ".join(sorted(missing)[:4]), run.entry, [], lines[-5:], "never seen in %d native runs" % tries)

def build_all(ctx, variants):
    sxlib.engine()
    ctx.left_out = []
    ctx.dir = tempfile.mkdtemp(prefix="run-%s-" % ctx.pid, dir=BUILD)
    def b(a):
        v, what = a
        d = os.path.join(ctx.dir, v.name + "." + what)
        return v.name, what, (v.build_ir(d) if what == "ir" else v.build_native(d))
    for v in variants:
        for w in ("ir", "native"):
            try:
                n, what, p = b((v, w))
            except BuildError as e:
                ctx.left_out.append(v.name)
                if not v.optional:
                    ctx.errors.append("build: %s" % e)
                ctx.notes.append("variant %s left out, it does not build: %s" % (v.name, str(e)[-400:]))
                ctx.irs.pop(v.name, None)
                break
            (ctx.irs if what == "ir" else ctx.exes)[n] = p

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import props
    spec = props.PROPS[pid]
    ctx = Ctx(pid, tier, seed)
    ctx.planned = 0
    ctx.also = spec.get("also", ())  # other properties whose assertions express this one too
    ctx.nwit = spec.get("witnesses", 3)
    ctx.budget = spec.get("budget", {}).get(tier, 240 if tier == "quick" else 3000)
    ctx.deadline = ctx.t0 + (780 if tier == "quick" else 5 * 3600)
    for l in load_known(pid):
        pass
    runs = []
    try:
        build_all(ctx, [props.VARIANTS[v] for v in spec["variants"]])
        runs = spec["runs"](tier)
        ctx.planned = len(runs)
        runs = [r for r in runs if r.variant in ctx.exes and r.variant not in ctx.left_out]
        ctx.log("%s: built %s; %d symbolic runs" % (pid, ", ".join(spec["variants"]), len(runs)))
        with concurrent.futures.ThreadPoolExecutor(sxlib.JOBS) as ex:
            fs = [ex.submit(handle, ctx, r) for r in runs]
            for f in fs:
                f.result()
        if "post" in spec and not ctx.violations:
            spec["post"](ctx, runs)
    except BuildError as e:
        ctx.errors.append("build: %s" % e)
    finally:
        if getattr(ctx, "dir", None) and not os.environ.get("SX_KEEP"):
            shutil.rmtree(ctx.dir, ignore_errors=True)
    evidence(ctx, spec, runs)
    for k in ctx.known:
        print(k)
    if ctx.violations:
        sys.exit(1)
    for l, w in list(ctx.undecided.items())[:10]:
        print("UNDECIDED %s: %s" % (l, w))
    # some runs without a verdict leave a smaller bound (recorded in the evidence); most of them, no answer
    decided = len(runs) - len(ctx.undecided)
    if ctx.errors and not runs or decided * 2 < ctx.planned or not decided:
        for e in ctx.errors[:20]:
            print("NO-ANSWER", e)
        sys.exit(2)
    for e in ctx.errors[:20]:
        print("LEFT-OUT", e)
    ctx.log("%s held: %s" % (pid, ctx.summary))
    sys.exit(0)

def evidence(ctx, spec, runs):
    tot = {}
    sol = {}
    fns = set()
    done = [r.res for r in runs if r.res and "fatal" not in r.res]
    for r in done:
        for k in ("paths", "aborted", "assumed_away", "instructions", "forks", "symbolic_branches", "asserts", "symbolic_asserts", "symbolic_memory_checks"):
            tot[k] = tot.get(k, 0) + r[k]
        for k, v in r["solver"].items():
            sol[k] = max(sol.get(k, 0), v) if k == "max_query" else sol.get(k, 0) + v
        fns |= set(r["functions"])
    complete = [r for r in done if r["complete"]]
    ctx.summary = "%d/%d runs exhausted their bounds, %d paths, %d solver queries (%.1fs), %d real-code replays" % (
        len(complete), len(runs), tot.get("paths", 0) + tot.get("aborted", 0), sol.get("queries", 0), sol.get("time", 0), ctx.replayed)
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": "model_checking",
          "coverage": {
              "states": len(done) + tot.get("forks", 0), "transitions": tot.get("instructions", 0),
              "traces_validated_against_impl": ctx.replayed,
              "samples": ctx.samples or [{"run": r.label} for r in runs[:2]],
              "exhaustive": len(complete) == len(runs) and not ctx.errors and not ctx.undecided,
              "exhaustive_within": spec["bounds"],
              "symbolic_paths": tot.get("paths", 0), "paths_ending_in_a_failed_check": tot.get("aborted", 0),
              "assertions_evaluated": tot.get("asserts", 0), "assertions_decided_by_solver": tot.get("symbolic_asserts", 0),
              "symbolic_branches": tot.get("symbolic_branches", 0), "memory_accesses_bounds_checked_by_solver": tot.get("symbolic_memory_checks", 0),
              "solver": {k: (round(v, 3) if isinstance(v, float) else v) for k, v in sol.items()},
              "functions_encoded": sorted(fns),
              "runs": [{"run": r.label, "complete": bool(r.res and r.res.get("complete")), "paths": (r.res or {}).get("paths"), "wall": (r.res or {}).get("wall")} for r in runs][:200],
              "runs_total": len(runs), "runs_complete": len(complete),
              "errors": ctx.errors[:10], "undecided_runs": dict(list(ctx.undecided.items())[:20]),
              "notes": ctx.notes[:20],
          },
          "assumptions": spec.get("assumptions", []) + COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - ctx.t0, 2), "violations": len(ctx.violations)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", ctx.pid + ".json"), "w"), indent=1)

COMMON_ASSUMPTIONS = [
    "encoding: LLVM IR of the current tree (clang 18, -O1, -fwrapv, -fno-strict-aliasing), executed by /verif/engine; queries decided by z3",
    "iostream output is ignored; libstdc++/libc parts that live in shared libraries are replaced by /verif/model/stl.cc",
]

if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(2)
