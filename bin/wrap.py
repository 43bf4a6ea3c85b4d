"""C12: recursive_wrapper by itself (Wrapper)."""
import random
from vlib import *

COPY = {"cvctor", "cctor", "cas", "cvas"}


def wrap_check(ctx, tag="wrap", std="c++17", cxx="g++", flags=None, elems=(("ETt", 1), ("ENd", 1), ("EOd", 0)), defs=(), prop=None):
    thorough = TIER == "thorough"
    out, st = design(ctx, "WrapperGen", tag + ".gen", ["NS = 2", "DEPTH = %d" % (5 if thorough else 4)], ["Sane", "Dead0"])
    his = {json.dumps(h): h for h in printed(out, "WRP")}
    # a history that is the beginning of another one is contained in it, but its last call is not made with faults there
    hs = [his[k] for k in sorted(his)]
    rnd = random.Random(SEED + 77)
    if not thorough and len(hs) > 6000:
        short = [h for h in hs if len(h) < 4]
        hs = short + rnd.sample([h for h in hs if len(h) >= 4], 6000 - min(5000, len(short)))
    jobs, runs = [], []
    for e, c in elems:
        jobs.append(dict(name="%s_%s" % (tag, e), src=os.path.join(HARN, "wrap.cpp"), std=std, cxx=cxx,
                         flags=flags or ["-g1", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-lifetime-dse"],
                         defs=["-DWRAP_ELEM=" + e, "-DWRAP_COPY=%d" % c, '-DWRAP_NAME="%s"' % e] + list(defs)))
    exes = build(ctx, jobs)
    n = 0
    for (e, c), x in zip(elems, exes):
        use = [h for h in hs if c or not any(o["o"] in COPY for o in h)]
        for part in range(2):
            p = ctx.path("scripts", "%s_%s%d" % (tag, e, part))
            with open(p, "w") as f:
                for h in use[part::2]:
                    f.write(";".join("%s %d %d %d" % (o["o"], o["d"], o["s"], 10 * o["x"]) for o in h) + "\n")
                    n += 1
            runs.append((x, p, ctx.path("traces", "%s_%s%d.ndjson" % (tag, e, part))))
    pool(lambda t: run_script(ctx, *t), runs)
    ctx.cov["wrapper_histories"] = n
    validate(ctx, "WrapperTrace", [r[2] for r in runs], tag, prop=prop)
