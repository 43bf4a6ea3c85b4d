"""C19: functions as visitors (FunctionVisitor)."""
from vlib import *

CPP = {"base": "base", "string": "std::string", "cptr": "const char*"}


def fnv_check(ctx, tag="fnv", std="c++17", cxx="g++", flags=None, ntu=8, defs=(), prop=None):
    out, st = design(ctx, "FunctionVisitorGen", tag + ".gen", [], ["Exclusive", "Reachable"])
    by = {}
    for x in printed(out, "FNV"):
        q = x["q"]
        by.setdefault((x["c"], q["t"]), []).append((["val", "cref", "ref"].index(q["p"]), ["int", "void", "ref", "move"].index(q["r"]), ["lv", "clv", "rv"].index(q["v"]), q["th"]))
    pairs = sorted(by)
    # the function's type decides what is instantiated: one translation unit per few asked types
    asked = sorted({t for _, t in pairs})
    jobs = []
    for k in range(ntu):
        p = ctx.path("src", "%s%d.cpp" % (tag, k))
        with open(p, "w") as f:
            f.write('#include "fnv.hpp"\nusing namespace fv;\nint main() { vh::install();\n')
            for c, t in pairs:
                if asked.index(t) % ntu != k:
                    continue
                qs = sorted(set(by[c, t]))
                v = "VA" if (asked.index(t) // ntu + k) % 2 else "VB"
                f.write("{ static const unsigned char q[][4] = {%s}; asks<%s, %s, %s>(q, %d); }\n" % (",".join("{%d,%d,%d,%d}" % q for q in qs), v, CPP.get(c, c), CPP.get(t, t), len(qs)))
            f.write("sink_flush(); return 0; }\n")
        jobs.append(dict(name="%s%d" % (tag, k), src=p, std=std, cxx=cxx, flags=flags or ["-g0", "-O0", "-w"], defs=list(defs)))
    exes = build(ctx, jobs)
    files = [ctx.path("traces", j["name"] + ".ndjson") for j in jobs]
    run_plain(ctx, exes, files)
    ctx.cov["function_visits"] = sum(len(v) for v in by.values())
    validate(ctx, "FunctionVisitorTrace", files, tag, prop=prop)
