"""Checks of observing calls (VariantQuery): states and queries enumerated by TLC over VariantImpl, executed by
harness/core.cpp with a Q_* macro, judged by VariantTrace."""
from vlib import *
import core

O0 = ["-g0", "-O0", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-lifetime-dse"]
# valuations of the contents: distinct, all equal, two values, small residues
VALUATIONS = [lambda i: 11 + 7 * i, lambda i: 12, lambda i: 10 + (i % 2), lambda i: 20 + (i * i) % 5, lambda i: 33 - 3 * i, lambda i: 40 + i]


def gen_queries(ctx, names, queries, tag, nv=2, nf=1, scenarios=False):
    consts = [core.USUAL if names is None else "CONFIGS = {%s}" % ", ".join('"%s"' % n for n in names),
              "NV = %d" % nv, "NF = %d" % nf, "VALS = {1}", "BUGS = {}", "GEN = TRUE", "QUERIES = {%s}" % ", ".join('"%s"' % q for q in queries)]
    out, st = design(ctx, "VariantImpl", tag, consts, ["Contract", "NeverEmpty", "QueryGen"], view="ShapeView")
    cfgs = printed(out, "CFG")[0]
    by = {}
    for s in printed(out, "QRY"):
        by.setdefault(s["cfg"], []).append((s["ops"], s["q"]))
    lst = [dict(c, attr=cfgs["attr"]) for c in cfgs["list"] if c["name"] in by]
    if not scenarios:
        return lst, by
    sc = {}
    for s in printed(out, "SCN"):
        sc.setdefault(s["cfg"], []).append(s["ops"])
    return lst, by, sc


def query_jobs(ctx, cfgs, by, queries, macro, nval=1, flags=None, std="c++17", cxx="g++", tag=None, defs=(), form=("direct", 0), thin=1):
    nv = 2
    m = lambda j: j if j <= nv else j - nv + core.NV
    jobs, scripts = [], []
    nq = 0
    for c in cfgs:
        p = ctx.path("scripts", tag + c["name"])
        with open(p, "w") as f:
            for n, (ops, qs) in enumerate(by[c["name"]]):
                qs = [q for q in qs if q[0] in queries]
                if not qs or n % thin:
                    continue
                # chunks of queries: a crash loses only its own chunk
                for v in VALUATIONS[:nval]:
                    pre = ";".join(core.op_text(dict(o, d=m(o["d"]), s=m(o["s"])), v(i) if o["x"] else 0) for i, o in enumerate(ops))
                    for a in range(0, len(qs), 200):
                        f.write("Q " + pre + "#" + ";".join("%s %d %d %d %d %d %d %d %d" % tuple([q[0], m(q[1]), m(q[2])] + q[3:7] + [q[7] if q[0] == "qget" else m(q[7]), m(q[8])])
                                                           for q in qs[a:a + 200]) + "\n")
                        nq += len(qs[a:a + 200])
        jobs.append(dict(src=os.path.join(HARN, "core.cpp"), std=std, cxx=cxx, name="%s_%s" % (tag, c["name"]), flags=flags or O0,
                         defs=['-DCFG_HEADER="%s"' % core.cfg_header(ctx, c, core.NV, core.NF, form), "-D" + macro] + list(defs)))
        scripts.append(p)
    ctx.cov["queries_generated_by_TLC"] = ctx.cov.get("queries_generated_by_TLC", 0) + nq
    return jobs, scripts


def query_check(ctx, queries, macro, names=None, nval=1, tag=None, prop=None, reruns=1, shards=((),), defs=(), **k):
    tag = tag or macro.lower()
    cfgs, by = gen_queries(ctx, names, queries, tag + ".gen")
    jobs, scripts = [], []
    for i, sh in enumerate(shards):
        j, s = query_jobs(ctx, cfgs, by, queries, macro, nval=nval, tag=tag + (str(i) if len(shards) > 1 else ""), defs=list(defs) + list(sh), **k)
        jobs += j
        scripts += s
    build(ctx, jobs)
    files = []
    for r in range(reruns):
        files += core.run_jobs(ctx, jobs, scripts, ".%d" % r)
    if macro == "Q_HASH":          # one table of hashes per configuration over several processes (address space randomised)
        for j in jobs:
            rows, head = [], None
            for r in range(reruns):
                for l in open(ctx.path("traces", "%s.%d.ndjson" % (j["name"], r))):
                    if '"o":"hsum"' in l:
                        head = json.loads(l)
                        rows += [x for x in head["steps"][0]["rows"] if x not in rows]
            if head:
                head["steps"][0]["rows"] = rows
                fn = ctx.path("traces", "%s.all.ndjson" % j["name"])
                open(fn, "w").write(json.dumps(head) + "\n")
                files.append(fn)
    return files, tag, prop


def run(ctx, *a, **k):
    files, tag, prop = query_check(ctx, *a, **k)
    validate(ctx, "VariantTrace", files, tag, prop=prop)
