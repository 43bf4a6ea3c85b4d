#!/usr/bin/env python3
"""Shows that the machinery can say no (authoring aid, not registered as a check):
 1. the repaired defects put back into the model (BUGS) violate the contract,
 2. recorded traces of the real code with one field altered are rejected."""
import os, sys, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import core, query

ctx = Ctx("SELF")
bad = 0
for bug in ("holder", "nothrow-copy"):
    cfg = ctx.path(bug + ".cfg")
    write_cfg(cfg, consts=[core.USUAL, "NV = 2", "NF = 1", "VALS = {1}", 'BUGS = {"%s"}' % bug, "QUERIES = {}", "GEN = FALSE"], invs=["Contract", "NeverEmpty"], view="ShapeView")
    out, st = tlc(ctx, "VariantImpl", cfg, bug)
    ok = "Invariant Contract is violated" in out or "Invariant NeverEmpty is violated" in out
    bad += not ok
    print("model with %s: %s" % (bug, "violation found" if ok else "NOT FOUND"))

cfgs, by = core.generate(ctx, ["TT", "BTM"], 2, 1)
jobs, scripts = core.core_jobs(ctx, cfgs, by, 2)
build(ctx, jobs)
files = core.run_jobs(ctx, jobs, scripts)
lines = [l for f in files for l in open(f)]
rnd = random.Random(5)
kept = total = 0
silent = {}
for n in range(60):
    t = json.loads(rnd.choice(lines))
    if not t["steps"]:
        continue
    o = t["steps"][-1]
    # alter one scalar somewhere in the observed part of the last step
    places = []

    def walk(x, path):
        if isinstance(x, dict):
            for k, v in x.items():
                walk(v, path + [k])
        elif isinstance(x, list):
            for k, v in enumerate(x):
                walk(v, path + [k])
        elif isinstance(x, int) and not isinstance(x, bool):
            places.append(path)
    walk({k: v for k, v in o.items() if k not in ("p", "k", "x", "c", "w", "d", "s")}, [])
    if not places:
        continue
    p = rnd.choice(places)
    y = o
    for k in p[:-1]:
        y = y[k]
    y[p[-1]] += 1
    fn = ctx.path("traces", "cor%d.ndjson" % n)
    open(fn, "w").write(json.dumps(t) + "\n")
    total += 1
    try:
        validate(ctx, "VariantTrace", [fn], "cor", prop="ALL")
        silent[".".join(map(str, p))] = silent.get(".".join(map(str, p)), 0) + 1
    except (Violation, CheckError):
        kept += 1
print("altered traces: %d of %d rejected; not noticed: %s" % (kept, total, silent))
sys.exit(1 if bad else 0)
