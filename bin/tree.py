"""C12: recursive variants (RecTree)."""
import random
from vlib import *

LEAFALT = dict(vec=1, bin=1, ovr=1, add=2, map=1, nst=1)
ALTS = dict(vec=2, bin=2, ovr=3, add=3, map=2, nst=2)
BOUNDS = dict(vec=(2, 2, 5), bin=(2, 2, 5), ovr=(2, 2, 4), add=(2, 2, 4), map=(1, 2, 4), nst=(2, 2, 4))


def tree_text(t):
    return "0" if t[0] == 0 else "%d %d %s" % (t[0], len(t[2]), " ".join(tree_text(c) for c in t[2]))


def op_text(o, k=0):
    return "%s %d %d %d %d %d %d %d %s" % (o["o"], o["d"], o["s"], o["a"], o["c"], o["x"], k, len(o["p"]), " ".join(map(str, o["p"])))


def tree_check(ctx, tag="tree", std="c++17", cxx="g++", flags=None, elems=("EM", "ET"), types=None, nhist=None, sample=None, prop=None, defs=()):
    thorough = TIER == "thorough"
    rnd = random.Random(SEED * 97 + 5)
    types = types or sorted(ALTS)
    scn = {}

    def gen(t):
        d, w, n = BOUNDS[t]
        if thorough:
            n += 1
        return t, design_q(ctx, t, tag, d, w, n)
    for t, (out, st) in pool(gen, types, 4):
        scn[t] = printed(out, "SCN")
        ctx.cov["states"] += st["distinct"]
        ctx.cov["transitions"] += st["generated"]
    ctx.log("model RecTree: %d operations in states: %s" % (sum(map(len, scn.values())), {t: len(scn[t]) for t in types}))
    jobs, scripts = [], []
    for t in types:
        lines = []
        cap = sample or (2500 if not thorough else 40000)
        ss = scn[t] if len(scn[t]) <= cap else rnd.sample(scn[t], cap)
        ctx.cov.setdefault("operations_in_states", {})[t] = [len(ss), len(scn[t])]
        for s in ss:
            o = dict(s["o"])
            if o["x"]:
                o["x"] = 50
            lines.append("S %d|%s|%s|%s" % (rnd.choice([0, 0, 1, 2]), tree_text(s["s"][0]), tree_text(s["s"][1]), op_text(o)))
        for _ in range(nhist or (150 if not thorough else 4000)):
            s = rnd.choice(scn[t])
            ops = []
            for i in range(18):
                n = rnd.choice(["cp", "as", "as", "sw", "gr", "gr", "ex", "ex", "ec", "mu", "lf", "wn", "wn", "ps", "ps", "dt"])
                o = dict(o=n, d=rnd.randint(1, 3), s=rnd.randint(1, 3), a=rnd.randint(1, ALTS[t]), c=rnd.choice([0, 2] if n not in ("as", "cp") else [0, 1, 2]), x=60 + i, p=[rnd.randint(1, 2) for _ in range(rnd.randint(0, 3))])
                if n == "sw":
                    o["c"] = rnd.randint(0, 1)
                ops.append(op_text(o, rnd.choice([0, 0, 0, 1, 2, 3, 4, 6])))
            lines.append("H %d|%s|%s|%s" % (rnd.choice([0, 1]), tree_text(s["s"][0]), tree_text(s["s"][1]), ";".join(ops)))
        p = ctx.path("scripts", tag + t)
        open(p, "w").write("\n".join(lines) + "\n")
        for e in elems:
            jobs.append(dict(name="%s_%s_%s" % (tag, t, e), src=os.path.join(HARN, "tree.cpp"), std=std, cxx=cxx, flags=flags or BASE_FLAGS,
                             defs=["-DTREE=" + t, '-DTREE_NAME="%s"' % t, "-DTREE_ELEM=" + e, "-DLEAF_ALT=%d" % LEAFALT[t]] + list(defs)))
            scripts.append(p)
    exes = build(ctx, jobs)
    files = [ctx.path("traces", j["name"] + ".ndjson") for j in jobs]
    cr = pool(lambda t: run_script(ctx, *t), list(zip(exes, scripts, files)))
    ctx.log("ran %d drivers, %d crashes" % (len(exes), sum(cr)))
    validate(ctx, "RecTreeTrace", files, tag, prop=prop)


def design_q(ctx, t, tag, d, w, n):
    cfg = ctx.path("%s.%s.cfg" % (tag, t))
    write_cfg(cfg, consts=['TYPES = {"%s"}' % t, "MAXD = %d" % d, "MAXW = %d" % w, "MAXN = %d" % n], invs=["AllComplete"])
    out, st = tlc(ctx, "RecTreeGen", cfg, tag + t, workers=2)
    if not st["ok"]:
        open(ctx.path("gen.out"), "w").write(out)
        raise CheckError("RecTreeGen failed: " + ctx.path("gen.out"))
    return out, st
