"""C11: converting construction and assignment. Conversion.tla models overload resolution; ConversionGen enumerates the
edges of the state machine, the generated driver performs each with every value category, ConversionTrace judges."""
import random
from vlib import *

ALTS = list("bcsiuldPSeBDXYZNf")


def conv_check(ctx, nlists=None, std="c++17", cxx="g++", flags=None, ntu=24, tag="conv", pairs=True, defs=(), prop=None):
    rnd = random.Random(SEED * 7919 + 11)
    thorough = TIER == "thorough"
    lists = set()
    n = nlists or (70 if not thorough else 600)
    while len(lists) < n:
        lists.add(tuple(rnd.sample(ALTS, rnd.choice([3, 3, 3, 4, 5]))))
    lf = ctx.path("lists.ndjson")
    with open(lf, "w") as f:
        for l in sorted(lists):
            f.write(json.dumps(list(l)) + "\n")
    cfg = ctx.path(tag + ".gen.cfg")
    write_cfg(cfg, consts=["PAIRS = {%s}" % ", ".join('"%s"' % a for a in (ALTS if pairs else [])), "FROMFILE = TRUE"], invs=["TypeOK", "ExactWins", "Stable"])
    out, st = tlc(ctx, "ConversionGen", cfg, tag + ".gen", env={"LISTS": lf})
    if not st["ok"]:
        open(ctx.path(tag + ".gen.out"), "w").write(out)
        raise CheckError("ConversionGen fails its own invariants: " + ctx.path(tag + ".gen.out"))
    ctx.cov["states"] += st["distinct"]
    ctx.cov["transitions"] += st["generated"]
    edges = printed(out, "EDGE")
    uses, forn, win = {}, {}, {}
    for e in edges:
        uses.setdefault(tuple(e["l"]), set()).add(e["a"])
        win[tuple(e["l"]), e["a"]] = e["w"]
    for e in printed(out, "FOR"):
        forn[tuple(e["l"])] = sorted(map(tuple, e["f"]))
    ctx.log("model Conversion: %d states, %d edges, %d lists" % (st["distinct"], len(edges), len(uses)))
    calls = []
    for l in sorted(uses):
        q = ",".join('\\"%s\\"' % t for t in l)

        def types(wrap):
            return ", ".join("boost::recursive_wrapper<%s>" % t if wrap and (wrap >> k) & 1 and t in "SXZY" else t for k, t in enumerate(l))
        g = []
        wrap = rnd.choice([0, 0, 1, 2, 3]) if any(t in "SXZY" for t in l) else 0

        def ok(a):      # a recursive_wrapper accepts only its own type (documented in recursive_wrapper_fwd.hpp)
            w = win[l, a] - 1
            return l[w] == a or not ((wrap >> w) & 1 and l[w] in "SXZY")
        for a in filter(ok, sorted(uses[l])):
            g.append('Run<L<%s >, %s>::go("%s", "%s");' % (types(wrap), a, q, a))
        fs = [x for x in forn[l] if ok(x[0]) and ok(x[1])]
        rnd.shuffle(fs)
        for a, c in fs[:2]:
            g.append('For<L<%s >, %s, boost::variant<%s, %s> >::go("%s", "%s");' % (types(wrap), a, a, c, q, a))
            g.append('For<L<%s >, %s, boost::variant<%s, %s> >::go("%s", "%s");' % (types(wrap), c, a, c, q, c))
        calls.append(g)
    # a foreign variant of the very types of the list in another order is the same type only if the order is the same
    jobs = []
    for k in range(ntu):
        p = ctx.path("src", "%s%d.cpp" % (tag, k))
        with open(p, "w") as f:
            f.write('#include "conv.hpp"\nusing namespace cv;\n')
            part = calls[k::ntu]
            for j, g in enumerate(part):
                f.write("static void g%d() {\n  %s\n}\n" % (j, "\n  ".join(g)))
            f.write("int main() { vh::install(); the_object.id = 7;\n%s sink_flush(); return 0; }\n" % "".join(" g%d();" % j for j in range(len(part))))
        jobs.append(dict(name="%s%d" % (tag, k), src=p, std=std, cxx=cxx, flags=flags or ["-g0", "-O0", "-w"] + (["-fsanitize=address,undefined", "-fno-sanitize-recover=all"] if k % 4 == 0 else []), defs=list(defs)))
    exes = build(ctx, jobs)
    files = [ctx.path("traces", j["name"] + ".ndjson") for j in jobs]
    run_plain(ctx, exes, files)
    ctx.cov["conversion_edges"] = len(edges)
    validate(ctx, "ConversionTrace", files, tag, prop=prop)
