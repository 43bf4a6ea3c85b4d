"""Shared machinery: run TLC, build drivers from /repo, run them, validate traces, write evidence."""
import json, os, re, shutil, subprocess, sys, time, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not do its work (an error exit, never a violation)."""


class Violation(Exception):
    def __init__(self, what, replay):
        Exception.__init__(self, what)
        self.what, self.replay = what, replay


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.work = os.path.join(VERIF, ".work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.notes = []

    def path(self, *a):
        p = os.path.join(self.work, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)


def pool(fn, items, n=None):
    with ThreadPoolExecutor(n or JOBS) as ex:
        return list(ex.map(fn, items))


# ------------------------------------------------------------------------------------------------ TLC
def write_cfg(path, spec="Spec", consts=(), invs=(), view=None, extra=""):
    with open(path, "w") as f:
        f.write("SPECIFICATION %s\n" % spec)
        if consts:
            f.write("CONSTANTS\n" + "".join("  %s\n" % c for c in consts))
        if invs:
            f.write("INVARIANTS " + " ".join(invs) + "\n")
        if view:
            f.write("VIEW %s\n" % view)
        f.write("CHECK_DEADLOCK FALSE\n" + extra)


def tlc(ctx, module, cfg, tag, workers=8, env=None, heap="4g", timeout=800, extra=()):
    """Returns (output, stats dict). Does not judge."""
    meta = ctx.path("tlc", tag, "meta")
    tmp = ctx.path("tlc", tag, "tmp", "x")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + os.path.dirname(tmp),
           "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-config", cfg, "-noGenerateSpecTE"]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=SPEC, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s (%s)" % (module, tag))
    out = p.stdout.decode("utf-8", "replace")
    shutil.rmtree(ctx.path("tlc", tag), ignore_errors=True)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    st = {"rc": p.returncode, "generated": int(m.group(1)) if m else 0, "distinct": int(m.group(2)) if m else 0,
          "ok": "No error has been found" in out, "violated": bool(re.search(r"Invariant \S+ is violated|Error: .*is violated", out))}
    return out, st


def design(ctx, module, tag, consts, invs, view=None, heap="6g", extra=()):
    """Exhaustive model check of a design-level specification: must pass, or the check itself is wrong."""
    cfg = ctx.path(tag + ".cfg")
    write_cfg(cfg, consts=consts, invs=invs, view=view)
    out, st = tlc(ctx, module, cfg, tag, workers=JOBS, heap=heap, extra=extra)
    if not st["ok"]:
        with open(ctx.path(tag + ".out"), "w") as f:
            f.write(out)
        raise CheckError("model %s (%s) fails its own invariants, see %s" % (module, tag, ctx.path(tag + ".out")))
    ctx.cov["states"] += st["distinct"]
    ctx.cov["transitions"] += st["generated"]
    ctx.log("model %s/%s: %d states, %d transitions" % (module, tag, st["distinct"], st["generated"]))
    return out, st


def printed(out, mark):
    """Lines printed by PrintT("MARK " \\o ToJson(x))."""
    r = []
    pre = '"' + mark + " "
    for l in out.splitlines():
        if l.startswith(pre) and l.endswith('"'):
            r.append(json.loads(json.loads(l)[len(mark) + 1:]))
    return r


# ------------------------------------------------------------------------------------------------ building drivers
BASE_FLAGS = ["-g1", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-fno-lifetime-dse"]


def compile_one(ctx, job):
    """job: dict(name, src, defs, flags, cxx, std). Returns (ok, exe, log)."""
    exe = ctx.path("bin", job["name"])
    cmd = [job.get("cxx", "g++"), "-std=" + job.get("std", "c++17")] + job.get("flags", BASE_FLAGS) + \
          ["-I" + os.path.join(REPO, "include"), "-I" + HARN] + job.get("defs", []) + [job["src"], "-o", exe]
    p = None
    for attempt in (1, 2):
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=500)
        except subprocess.TimeoutExpired:
            return False, exe, "compiler timed out: " + " ".join(cmd)
        if p.returncode == 0:
            return True, exe, ""
    return False, exe, " ".join(cmd) + "\n" + p.stdout.decode("utf-8", "replace")


def build(ctx, jobs):
    """Build all drivers. A driver that no longer compiles against /repo is a violation: it uses only the public
    interface in ways that compile on the unchanged tree."""
    t = time.time()
    res = pool(lambda j: compile_one(ctx, j), jobs)
    bad = [(j, r) for j, r in zip(jobs, res) if not r[0]]
    if bad:
        sane = ctx.path("sane.cpp")
        with open(sane, "w") as f:
            f.write("#include <vector>\nint main(){std::vector<int> v(3); return v.size()!=3;}\n")
        ok, _, _ = compile_one(ctx, dict(name="sane", src=sane))
        if not ok:
            raise CheckError("the compiler does not work")
        rp = ctx.path("replay", "compile.txt")
        with open(rp, "w") as f:
            for j, r in bad:
                f.write("driver %s does not compile against the current tree\n%s\n" % (j["name"], r[2][:6000]))
        raise Violation("driver does not compile: " + ", ".join(j["name"] for j, _ in bad), rp)
    ctx.log("built %d drivers in %.1fs" % (len(jobs), time.time() - t))
    for j, r in zip(jobs, res):
        j["exe"] = r[1]
    return [r[1] for r in res]


RUN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0",
           "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1:abort_on_error=1"}


def run_driver(ctx, exe, args, outp, timeout=400, cwd=None):
    e = dict(os.environ)
    e.update(RUN_ENV)
    with open(outp, "ab") as f, open(outp + ".err", "ab") as g:
        try:
            p = subprocess.run([exe] + [str(a) for a in args], stdout=f, stderr=g, env=e, timeout=timeout, cwd=cwd or ctx.work)
            return p.returncode
        except subprocess.TimeoutExpired:
            return -999


def died(ctx, exe, args, outp, rc):
    """The driver died between recorded calls (a corrupted heap, say). Not an error of the check if it happens again."""
    err = open(outp + ".err").read()[-2000:]
    again = run_driver(ctx, exe, args, outp + ".again")
    if again in (0, 9, -999, -9):
        raise CheckError("driver %s died without a record (rc %d, then %d): %s" % (exe, rc, again, err))
    rp = ctx.path("replay", "died.txt")
    with open(rp, "w") as f:
        f.write("%s %s\nexit %d, again %d\n%s\n" % (exe, " ".join(map(str, args)), rc, again, err))
    raise Violation("driver %s corrupts its own memory or terminates outside any call" % os.path.basename(exe), rp)


def run_script(ctx, exe, script, outp, limit=12):
    """Run a script driver; after a crash go on behind the crashing scenario."""
    n = sum(1 for _ in open(script))
    start, crashes = 0, 0
    open(outp, "wb").close()
    while True:
        rc = run_driver(ctx, exe, [script, start], outp)
        if rc == 0:
            break
        if rc in (9, -999, -9):
            raise CheckError("driver %s failed (rc %d): %s" % (exe, rc, open(outp + ".err").read()[-2000:]))
        crashes += 1
        with open(outp, "rb+") as f:          # a crashed run may have cut off its last line
            data = f.read()
        lines = data.split(b"\n")
        last = None
        for l in reversed(lines):
            if l.strip():
                try:
                    last = json.loads(l)
                except ValueError:
                    died(ctx, exe, [script, start], outp, rc)
                break
        if not last or not last["steps"] or last["steps"][-1]["o"] != "crash":
            died(ctx, exe, [script, start], outp, rc)
        start = last["id"] + 1
        if start >= n or crashes >= limit:
            break
    return crashes


def run_plain(ctx, exes, files):
    """Run drivers that take no script; a crash ends the run and is the last recorded step."""
    def go(t):
        exe, fn = t
        open(fn, "wb").close()
        rc = run_driver(ctx, exe, [], fn)
        if rc in (9, -999, -9):
            raise CheckError("driver failed rc=%d %s" % (rc, exe))
        if rc and '"o":"crash"' not in open(fn).read()[-400:]:
            died(ctx, exe, [], fn, rc)
        return rc
    return pool(go, list(zip(exes, files)))


# ------------------------------------------------------------------------------------------------ trace validation
def chunks(ctx, files, tag, n=None):
    """Distribute the lines of the trace files over n chunk files. Returns [(path, lines, states)]."""
    n = n or JOBS
    outs = [open(ctx.path("chunks", "%s.%d.ndjson" % (tag, i)), "wb") for i in range(n)]
    meta = [[0, 0] for _ in range(n)]
    k = 0
    for fn in files:
        with open(fn, "rb") as f:
            for l in f:
                l = l.strip()
                if not l:
                    continue
                i = k % n
                k += 1
                outs[i].write(l + b"\n")
                meta[i][0] += 1
                meta[i][1] += 1 + len(json.loads(l)["steps"])
    for o in outs:
        o.close()
    return [(o.name, m[0], m[1]) for o, m in zip(outs, meta) if m[0]]


def validate(ctx, module, files, tag, prop=None, consts=(), replay_hint=None):
    """TLC decides whether the recorded executions are behaviours the specification allows."""
    prop = prop or ctx.prop
    if not re.match(r"C\d\d$|ALL$", prop):
        raise CheckError("no such property: " + prop)
    ch = chunks(ctx, files, tag)
    if not ch:
        raise CheckError("no traces recorded for " + tag)
    cfg = ctx.path(tag + ".trace.cfg")
    write_cfg(cfg, consts=['PROP = "%s"' % prop] + list(consts), invs=["NoViolation"])

    def one(c):
        p, n, s = c
        for attempt in (1, 2):
            out, st = tlc(ctx, module, cfg, tag + "." + os.path.basename(p) + str(attempt), workers=1, env={"TRACE": p}, heap="3g")
            v = printed(out, "VIOL")
            if v:
                return ("viol", v[0], p)
            if st["ok"] and st["distinct"] == s:
                return ("ok", st, p)
        with open(ctx.path("trace.out"), "w") as f:
            f.write(out)
        return ("err", "TLC did not examine the whole trace (%d of %d states), see %s" % (st["distinct"], s, ctx.path("trace.out")), p)

    t = time.time()
    res = pool(one, ch)
    for r in res:
        if r[0] == "viol":
            v, p = r[1], r[2]
            line = open(p).read().splitlines()[v["line"] - 1]
            names = sorted(set(w[1] for w in v["what"]))
            if any(w[0] == "C00" for w in v["what"]):
                raise CheckError("harness and specification disagree about the setup: %s" % v)
            rp = ctx.path("replay", "%s_%s_%s.json" % (tag, v.get("cfg"), v.get("id")))
            with open(rp, "w") as f:
                json.dump({"property": prop, "broken": v["what"], "step": v["step"], "spec": module,
                           "trace": json.loads(line), "how": replay_hint(v) if replay_hint else ""}, f, indent=1)
            raise Violation("%s: %s (config %s, scenario %s, fault point %s, step %s)" %
                            (tag, ", ".join(names), v.get("cfg"), v.get("id"), v.get("k"), v["step"]), rp)
    for r in res:
        if r[0] == "err":
            raise CheckError(r[1])
    n = sum(c[1] for c in ch)
    s = sum(c[2] for c in ch)
    ctx.cov["traces_validated_against_impl"] += n
    ctx.cov["states"] += s
    ctx.cov["transitions"] += s - n
    ctx.log("validated %d traces (%d steps) of %s in %.1fs" % (n, s - n, tag, time.time() - t))
    if len(ctx.cov["samples"]) < 4:
        with open(ch[0][0]) as f:
            ls = f.readlines()
        smp = json.loads(ls[len(ls) // 2])
        ctx.cov["samples"].append(smp if len(json.dumps(smp)) < 6000 else {"cfg": smp.get("cfg"), "id": smp.get("id"), "steps": len(smp["steps"]), "first": smp["steps"][:2]})
    return n


# ------------------------------------------------------------------------------------------------ evidence / exit
def finish(ctx, level, violations):
    ev = {"property": ctx.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level,
          "coverage": ctx.cov, "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 1), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def run_check(prop, level, body):
    ctx = Ctx(prop)
    try:
        body(ctx)
    except Violation as v:
        ctx.cov["violation"] = v.what
        if not ctx.cov["samples"]:
            ctx.cov["samples"].append(v.what)
        finish(ctx, level, 1)
        print(v.what)
        print("VIOLATION property=%s replay=%s" % (prop, v.replay), flush=True)
        return 1
    except CheckError as e:
        ctx.cov["error"] = str(e)[:500]
        finish(ctx, level, 0)
        print("ERROR " + str(e), flush=True)
        return 2
    except Exception:
        import traceback
        ctx.cov["error"] = traceback.format_exc()[-500:]
        finish(ctx, level, 0)
        print("ERROR " + traceback.format_exc(), flush=True)
        return 2
    finish(ctx, level, 0)
    # keep replays and logs, drop bulky intermediate data
    for d in ("chunks", "bin", "traces", "scripts", "tlc"):
        shutil.rmtree(os.path.join(ctx.work, d), ignore_errors=True)
    ctx.log("PASS " + prop)
    return 0
