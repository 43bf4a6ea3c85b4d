"""C15: where contents lie (Layout)."""
import random
from vlib import *

SIZES, ALIGNS = [1, 2, 3, 5, 7, 8, 9, 12, 16, 17, 24, 33, 40, 100], [1, 1, 1, 2, 4, 8, 16, 32, 64]


def blobs(rnd, n):
    l, seen = [], set()
    while len(l) < n:
        a = rnd.choice(ALIGNS)
        s = (rnd.choice(SIZES) + a - 1) // a * a
        k = rnd.choice([0, 1, 1, 1, 2] if n > 1 else [0, 1, 2])
        l.append([s, a, k])
    return l


def layout_check(ctx, tag="layout", std="c++17", cxx="g++", flags=None, nlists=None, ntu=16, defs=(), prop=None):
    thorough = TIER == "thorough"
    rnd = random.Random(SEED * 101 + 7)
    his = {}
    for n, depth in ((1, 2), (2, 2), (3, 2 if thorough else 1)):
        out, st = design(ctx, "LayoutGen", "%s.gen%d" % (tag, n), ["N = %d" % n, "DEPTH = %d" % depth, "KINDS = {0, 1, 2}"], ["Displaced", "Valid", "Out"], view="View")
        for x in printed(out, "HIS"):
            his.setdefault((n, tuple(x["k"])), {})[json.dumps(x["h"])] = x["h"]
    lists = [[[1, 1, 1]], [[1, 1, 0]], [[64, 64, 1]], [[1, 1, 1], [1, 1, 1]], [[1, 1, 1], [2, 1, 1]], [[2, 2, 1], [3, 1, 1]], [[3, 1, 2], [1, 1, 1]], [[1, 1, 0], [1, 1, 1]], [[7, 1, 1], [1, 1, 1], [4, 4, 1]],
             [[8, 8, 0], [9, 1, 1]], [[9, 1, 1], [8, 8, 1]], [[33, 1, 1], [32, 32, 1]], [[1, 1, 1], [64, 64, 0]], [[4, 4, 0], [17, 1, 0]], [[16, 16, 0], [33, 1, 0], [2, 2, 0]]]
    for _ in range((90 if not thorough else 700) if nlists is None else nlists):
        lists.append(blobs(rnd, rnd.choice([2, 2, 2, 3, 3, 5])))
    hist = {"ctor": "c", "vas": "v", "cas": "p", "mas": "m", "swap": "s"}
    jobs = []
    for k in range(ntu):
        p = ctx.path("src", "%s%d.cpp" % (tag, k))
        part = lists[k::ntu]
        with open(p, "w") as f:
            f.write('#include "layout.hpp"\nusing namespace la;\n')
            for j, l in enumerate(part):
                n = len(l)
                ks = tuple(b[2] for b in l)
                if n <= 3:
                    hs = [his[n, ks][x] for x in sorted(his[n, ks])]
                else:
                    hs = []
                if len(hs) > 300:
                    hs = rnd.sample(hs, 300)
                for _ in range(25 if n <= 3 else 60):          # longer histories
                    h = [dict(f="ctor", j=rnd.randrange(n), k=0)]
                    for _ in range(7):
                        h.append(dict(f=rnd.choice(["vas", "cas", "mas", "swap"]), j=rnd.randrange(n), k=rnd.choice([0, 0, 1, 1, 2, 3])))
                        if h[-1]["f"] == "swap":
                            h[-1]["k"] = 0
                    hs.append(h)
                bs = ", ".join("Blob<%d,%d,%d,%d>" % (b[0], b[1], b[2], t) for t, b in enumerate(l))
                f.write("static void L%d() { typedef Lay<boost::variant<%s>, %s> Y; const char* l = \"%s\";\n static const Call c[][8] = {\n" % (j, bs, bs, json.dumps(l).replace(" ", "")))
                for h in hs:
                    f.write("{%s},\n" % ",".join("{'%s',%d,%d}" % (hist[c["f"]], c["j"], c["k"]) for c in h))
                f.write("};\n static const int n[] = {%s};\n for (unsigned i = 0; i < sizeof n / sizeof *n; ++i) Y::history(l, c[i], n[i]); }\n" % ",".join(str(len(h)) for h in hs))
            f.write("int main() { vh::install();%s sink_flush(); return 0; }\n" % "".join(" L%d();" % j for j in range(len(part))))
        jobs.append(dict(name="%s%d" % (tag, k), src=p, std=std, cxx=cxx, flags=flags or ["-g0", "-O1", "-w", "-fno-lifetime-dse", "-fno-strict-aliasing"] + (["-fsanitize=address,undefined", "-fno-sanitize-recover=all"] if k % 4 == 0 else []), defs=list(defs)))
    exes = build(ctx, jobs)
    files = [ctx.path("traces", j["name"] + ".ndjson") for j in jobs]
    run_plain(ctx, exes, files)
    ctx.cov["layout_lists"] = len(lists)
    validate(ctx, "LayoutTrace", files, tag, prop=prop)
