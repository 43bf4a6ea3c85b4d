"""C08: get among related alternatives (Hierarchy)."""
from vlib import *

EXPR = {"ptr": "&v", "cptr": "&cv", "null": "(V*)0", "cnull": "(const V*)0", "lv": "v", "clv": "cv", "rv": "std::move(v)"}


def hier_check(ctx, tag="hier", std="c++17", cxx="g++", flags=None, ntu=16, defs=(), prop=None, every=1):
    out, st = design(ctx, "HierarchyGen", tag + ".gen", [], ["Consistent", "OnlyOne"])
    lists = sorted(printed(out, "LST"), key=lambda x: json.dumps(x["l"]))[SEED % every::every]
    nq = 0
    jobs = []
    for k in range(ntu):
        p = ctx.path("src", "%s%d.cpp" % (tag, k))
        part = lists[k::ntu]
        with open(p, "w") as f:
            f.write('#include "hier.hpp"\nusing namespace hi;\n')
            for j, x in enumerate(part):
                ts = [("const %s" if c else "boost::recursive_wrapper<%s>" if w else "%s") % t for t, c, w in x["l"]]
                lj = json.dumps(json.dumps(x["l"]))
                f.write("static void q%d(int cur, boost::variant<%s>& v) {\n  typedef boost::variant<%s> V; const V& cv = v; begin(%s, cur);\n" % (j, ", ".join(ts), ", ".join(ts), lj))
                for q in sorted(x["q"], key=lambda q: (q["fn"], q["u"], q["uc"], q["op"])):
                    nq += len(x["l"])
                    f.write('  %s(%s, "%s", %s, %s, %s, "%s", %d)\n' % ("PQ" if "ptr" in q["op"] or "null" in q["op"] else "RQ", q["fn"], q["op"], EXPR[q["op"]], q["u"], "const" if q["uc"] else "", q["u"], q["uc"]))
                f.write("  finish(cv);\n}\n")
            f.write("int main() { vh::install();\n")
            for j, x in enumerate(part):
                ts = [("const %s" if c else "boost::recursive_wrapper<%s>" if w else "%s") % t for t, c, w in x["l"]]
                for i, (t, c, w) in enumerate(x["l"]):
                    f.write("  { boost::variant<%s> v((%s(%d))); q%d(%d, v); }\n" % (", ".join(ts), t, 41 + i, j, i + 1))
            f.write("  sink_flush(); return 0; }\n")
        jobs.append(dict(name="%s%d" % (tag, k), src=p, std=std, cxx=cxx, flags=flags or ["-g0", "-O0", "-w"] + (["-fsanitize=address,undefined", "-fno-sanitize-recover=all"] if k % 4 == 0 else []), defs=list(defs)))
    exes = build(ctx, jobs)
    files = [ctx.path("traces", j["name"] + ".ndjson") for j in jobs]
    run_plain(ctx, exes, files)
    ctx.cov["related_gets"] = nq
    validate(ctx, "HierarchyTrace", files, tag, prop=prop)
