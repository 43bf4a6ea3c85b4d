"""C13: reference alternatives (RefVariant)."""
import random
from vlib import *


def ref_check(ctx, tag="ref", std="c++17", cxx="g++", flags=None, elems=("EN", "ET"), slots=None, prop=None, defs=()):
    thorough = TIER == "thorough"
    ns = slots or 2
    out, st = design(ctx, "RefVariantGen", tag + ".gen", ["NS = %d" % ns, "KINDS = {1, 2, 3, 4, 5, 6, 7}"], ["RefsValid", "RefsTyped"], view="View")
    conv = printed(out, "CONV")[0]
    scn = printed(out, "SCN")
    rnd = random.Random(SEED * 31 + 13)
    hdr = ctx.path("cfg", "ref_conv.hpp")
    with open(hdr, "w") as f:
        f.write("".join("CAN(%d, %d, %d)\n" % tuple(c) for c in conv))
    lines = []
    for h in scn:
        lines.append(";".join("%s %d %d %d %d %d" % (o["o"], o["d"], o["s"], o["k"], o["c"], (30 + 7 * i) if o["x"] else 0) for i, o in enumerate(h)))
    # longer histories: random walks over the printed transitions (prefixes of each other), with writes in between
    byhist = {}
    for h in scn:
        byhist.setdefault(json.dumps(h[:-1]), []).append(h[-1])
    full = {k: v for k, v in byhist.items()}
    keys = sorted(full)
    for _ in range(600 if not thorough else 20000):
        k = rnd.choice(keys)
        h = json.loads(k)
        seq = []
        for o in h:
            seq.append(o)
            if rnd.random() < .5:
                seq.append(dict(o="wo", d=rnd.randint(1, 4), s=0, k=0, c=0, x=1))
        ops = full[k]
        for o in rnd.sample([o for o in ops if o["o"] in ("wr", "wo")], min(3, len([o for o in ops if o["o"] in ("wr", "wo")]))):
            seq.append(o)
        seq.append(rnd.choice(ops))
        lines.append(";".join("%s %d %d %d %d %d" % (o["o"], o["d"], o["s"], o["k"], o["c"], (30 + 7 * i) if o["x"] else 0) for i, o in enumerate(seq)))
    parts = 4
    scripts = []
    for i in range(parts):
        p = ctx.path("scripts", "%s%d" % (tag, i))
        open(p, "w").write("\n".join(lines[i::parts]) + "\n")
        scripts.append(p)
    jobs = [dict(name="%s_%s" % (tag, e), src=os.path.join(HARN, "ref.cpp"), std=std, cxx=cxx, flags=flags or ["-g1", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-lifetime-dse"],
                 defs=["-DREF_ELEM=" + e, '-DREF_NAME="%s"' % e, '-DREF_CONV="%s"' % hdr] + list(defs)) for e in elems]
    exes = build(ctx, jobs)
    runs = [(x, s, ctx.path("traces", "%s_%d_%d.ndjson" % (tag, a, b))) for a, x in enumerate(exes) for b, s in enumerate(scripts)]
    pool(lambda t: run_script(ctx, *t), runs)
    ctx.cov["histories_generated_by_TLC"] = len(scn)
    ctx.log("%d histories" % len(lines))
    validate(ctx, "RefVariantTrace", [r[2] for r in runs], tag, prop=prop)
