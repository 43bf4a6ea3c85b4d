"""C16: the same specifications, the code built and the type lists written in other ways."""
import random
from vlib import *
import core, query, tree, refs, conv, hier, layout

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
G = ["-w", "-g0", "-fno-lifetime-dse"]
K = ["-w", "-g0"]
MIN = ["-DBOOST_VARIANT_MINIMIZE_SIZE"]
NDB = ["-DNDEBUG"]
LONG = ["-DBOOST_MPL_CFG_NO_PREPROCESSED_HEADERS", "-DBOOST_MPL_LIMIT_LIST_SIZE=30"]
QS = {"Q_VISIT": ["qvisit"], "Q_MULTI": ["qvis2"], "Q_GET": ["qget"], "Q_REL": ["qcmp"], "Q_HASH": ["qhash"], "Q_IO": ["qio"], "Q_ADAPT": ["qdelay", "qvptr"]}
ALL = ["core"] + sorted(QS)
NAMES = ["TT", "TDC", "BTM", "RtC", "XT", "tTR"]

# name, compiler, standard, flags, definitions, form of the list
BUILDS = [
    ("g11",  "g++", "c++11", G + ["-O1"] + SAN, [], ("direct", 0)),
    ("g14n", "g++", "c++14", G + ["-O2"], NDB, ("direct", 0)),
    ("g20",  "g++", "c++20", G + ["-O0"] + SAN, [], ("over", 0)),
    ("g17o", "g++", "c++17", G + ["-O3"], NDB + MIN, ("direct", 0)),
    ("g17r", "g++", "c++17", G + ["-O0", "-fno-rtti"] + ["-fsanitize=address"], MIN, ("direct", 0)),
    ("k11",  "clang++", "c++11", K + ["-O0"] + SAN, MIN, ("direct", 0)),
    ("k14",  "clang++", "c++14", K + ["-O1"], NDB, ("recursive", 0)),
    ("k17",  "clang++", "c++17", K + ["-O2"] + SAN, [], ("direct", 0)),
    ("k20",  "clang++", "c++20", K + ["-O2", "-fno-rtti"], NDB, ("overlist", 0)),
    ("g14u", "g++", "c++14", G + ["-O1"] + SAN, ["-DBOOST_VARIANT_VISITATION_UNROLLING_LIMIT=2", "-DBOOST_VARIANT_USE_RELAXED_GET_BY_DEFAULT"], ("direct", 0)),
    ("g17l", "g++", "c++17", G + ["-O0"] + SAN, LONG, ("long", 30)),
    ("g11j", "g++", "c++11", G + ["-O0"], MIN, ("joint", 41)),
    ("k17j", "clang++", "c++17", K + ["-O0"], [], ("joint", 23)),
    ("g17e", "g++", "c++17", G + ["-O1", "-fno-exceptions"] + ["-fsanitize=address"], ["-DVH_NOEXC"], ("direct", 0)),
    ("k14e", "clang++", "c++14", K + ["-O1", "-fno-exceptions"], ["-DVH_NOEXC"], ("direct", 0)),
]
HUGE = [("g17m", "g++", "c++17", G + ["-O0"], MIN, ("plist", 130)), ("k11m", "clang++", "c++11", K + ["-O0"], [], ("plist", 130)),
        ("k17m", "clang++", "c++17", K + ["-O0"], MIN, ("plist", 126)), ("g14m", "g++", "c++14", G + ["-O0"], MIN, ("plist", 128))]


def plan(rnd, thorough):
    """(build, kinds of driver, configurations, thin): the whole product in the thorough tier, a covering part of it otherwise."""
    r = []
    for i, b in enumerate(BUILDS):
        big = b[5][1] > 0
        if thorough:
            r.append((b, ALL if not big else ["core", "Q_VISIT", "Q_GET", "Q_REL", "Q_HASH"], NAMES, 1 if not big else 2))
            continue
        r.append((b, ["core"], ["TT", "TDC", "RtC"] if not big else ["TDC"] + (["TT"] if b[5][1] < 40 else []), 3 if not big else 4))
        ks = [k for k in QS if k != "Q_MULTI" or i % 4 == 0] if not big else ["Q_VISIT", "Q_GET", "Q_REL"][i % 3:][:1]
        for j, k in enumerate(ks):
            r.append((b, [k], [NAMES[(i + j) % len(NAMES)]], 2))
    r.append((HUGE[0], ["core"], ["TT"], 3))
    if thorough:
        r += [(h, ["core"], ["TDC"], 2) for h in HUGE[1:]] + [(HUGE[1], ["Q_VISIT"], ["TT"], 2)]
    # the driver's own locale facet needs RTTI
    return [(b, [k for k in ks if k != "Q_IO" or "-fno-rtti" not in b[3]], n, t) for b, ks, n, t in r]


def matrix_check(ctx):
    thorough = TIER == "thorough"
    rnd = random.Random(SEED * 13 + 1)
    qs = sum(QS.values(), [])
    cfgs, byq, bys = query.gen_queries(ctx, NAMES, qs, "matrix.gen", scenarios=True)
    cfg = {c["name"]: c for c in cfgs}
    jobs, scripts, rows = [], [], []
    for b, kinds, names, thin in plan(rnd, thorough):
        tag, cxx, std, flags, defs, form = b
        cs = [cfg[n] for n in names]
        for k in kinds:
            if k == "core":
                j, s = core.core_jobs(ctx, cs, bys, std=std, cxx=cxx, flags=flags, defs=defs, tag=tag + "_core", form=form, thin=thin, nrand=30 if not thorough else 300)
            else:
                j, s = query.query_jobs(ctx, cs, byq, QS[k], k, nval=1 if k not in ("Q_REL", "Q_HASH") else 3, std=std, cxx=cxx, flags=flags, defs=defs, tag="%s_%s" % (tag, k), form=form, thin=thin)
            jobs += j
            scripts += s
            rows.append("%s: %s -std=%s %s %s list=%s%s; %s on %s" % (tag, cxx, std, " ".join(flags), " ".join(defs), form[0], form[1] or "", k, ",".join(names)))
    order = sorted(range(len(jobs)), key=lambda i: (0 if jobs[i]["name"].startswith(("g17m", "k11m", "k17m", "g14m", "g11j")) else 1, i))
    jobs, scripts = [jobs[i] for i in order], [scripts[i] for i in order]
    build(ctx, jobs)
    files = core.run_jobs(ctx, jobs, scripts)
    ctx.cov["builds"] = rows
    validate(ctx, "VariantTrace", files, "matrix", prop="ALL")
    # the other specifications, each in a build far from the usual one
    if thorough:
        for tag, cxx, std, flags, defs, form in BUILDS:
            if form[0] == "direct" and "-fno-rtti" not in flags:
                tree.tree_check(ctx, tag="tree_" + tag, std=std, cxx=cxx, flags=flags, defs=defs, sample=4000, nhist=300, prop="ALL")
                refs.ref_check(ctx, tag="ref_" + tag, std=std, cxx=cxx, flags=flags, defs=defs, prop="ALL")
                hier.hier_check(ctx, tag="hier_" + tag, std=std, cxx=cxx, flags=flags, defs=defs, prop="ALL")
                layout.layout_check(ctx, tag="lay_" + tag, std=std, cxx=cxx, flags=flags, defs=defs, nlists=60, prop="ALL")
                conv.conv_check(ctx, nlists=60, tag="conv_" + tag, std=std, cxx=cxx, flags=flags, defs=defs, pairs=tag in ("g11", "k17"), prop="ALL")
    else:
        tree.tree_check(ctx, tag="tree_k11", std="c++11", cxx="clang++", flags=K + ["-O1"], defs=MIN + NDB, elems=("ET",), types=["vec", "ovr"], sample=1500, nhist=50, prop="ALL")
        refs.ref_check(ctx, tag="ref_k11", std="c++11", cxx="clang++", flags=K + ["-O1"], defs=MIN, elems=("EN",), prop="ALL")
        layout.layout_check(ctx, tag="lay_k11", std="c++11", cxx="clang++", flags=K + ["-O1", "-fno-strict-aliasing"], defs=MIN, nlists=20, ntu=8, prop="ALL")
        conv.conv_check(ctx, nlists=40, std="c++11", cxx="clang++", flags=K + ["-O0"], defs=MIN, ntu=8, tag="conv_k11", pairs=False, prop="ALL")
