"""Core value-semantics checks: scenarios from VariantImpl, executed by harness/core.cpp, judged by VariantTrace."""
import os, random, json
from vlib import *

CPP = {"blank": "boost::blank"}


def cpp_alt(a):
    t = CPP.get(a["cls"]) or "%s<%d,%d,%d>" % (a["cls"], a["tag"], a["pad"], a["al"])
    return t, ("boost::recursive_wrapper< %s >" % t if a["wrap"] else t)


def spread(n, total):
    """Positions of n alternatives in a list of total: first, last, and around the boundaries of 20 in between."""
    pos = [0] + [p for p in (20, 19, 40, 128, 60) if p < total - 1][:n - 2] + [total - 1]
    return pos[:1] + sorted(pos[1:]) if n > 1 else [0]


def variant_type(alts, form, extra):
    """The C++ type of a variant over the alternatives, and the positions they take."""
    ts = [cpp_alt(a)[1] for a in alts]
    kind, total = form
    if kind == "direct":
        return "boost::variant<%s >" % ", ".join(ts), None
    if kind == "recursive":      # a recursive variant that happens not to recurse
        return "boost::make_recursive_variant<%s >::type" % ", ".join(ts), None
    if kind == "over":
        return "boost::make_variant_over<boost::mpl::vector<%s > >::type" % ", ".join(ts), None
    if kind == "overlist":
        return "boost::make_variant_over<boost::mpl::list<%s > >::type" % ", ".join(ts), None
    pos = spread(len(ts), total)
    full = ["EN<%d>" % (extra + k) for k in range(total)]
    for p, t in zip(pos, ts):
        full[p] = t
    if kind == "long":           # needs BOOST_MPL_LIMIT_LIST_SIZE
        return "boost::variant<%s >" % ", ".join(full), pos
    if kind == "plist":          # an mpl::list with a size known in advance
        seq = "boost::mpl::list<%s >" % ", ".join(full[-20:])
        for t in reversed(full[:-20]):
            seq = "boost::mpl::push_front<%s, %s >::type" % (seq, t)
        return "boost::make_variant_over<%s >::type" % seq, pos
    parts = ["boost::mpl::vector<%s >" % ", ".join(full[i:i + 20]) for i in range(0, total, 20)]
    seq = parts[-1]
    for q in reversed(parts[:-1]):
        seq = "boost::mpl::joint_view<%s, %s >" % (q, seq)
    return "boost::make_variant_over<%s >::type" % seq, pos


def cfg_header(ctx, c, nv, nf, form=("direct", 0)):
    """C++ types of one configuration of VariantConfigs.tla."""
    p = ctx.path("cfg", "cfg_%s_%d_%d_%s%d.hpp" % (c["name"], nv, nf, form[0], form[1]))
    attr = c["attr"]
    with open(p, "w") as f:
        f.write('#define CFG_NAME "%s"\n#define NV0 %d\n#define NV1 %d\n' % (c["name"], nv, nf if c["kinds"][1] else 0))
        if form[0] != "direct":
            f.write("#include <boost/mpl/vector.hpp>\n#include <boost/mpl/list.hpp>\n#include <boost/mpl/push_front.hpp>\n#include <boost/mpl/joint_view.hpp>\n")
        for k in (0, 1):
            alts = c["kinds"][k] or c["kinds"][0]
            vt, pos = variant_type(alts, form if k == 0 or not form[1] else ("over", 0), 200)
            f.write("typedef TL<%s > A%d;\n" % (", ".join(cpp_alt(a)[0] for a in alts), k))
            f.write("typedef %s V%d;\n" % (vt, k))
            if pos:
                f.write("#define WHMAP%d %s\n" % (k, ", ".join(map(str, pos))))
            f.write("#define DEF%d %s\n" % (k, "true" if attr[alts[0]["cls"]]["hd"] else "false"))
            f.write("#define COPY%d %s\n" % (k, "true" if all(attr[a["cls"]]["hc"] for a in alts) else "false"))
    return p


# every list but the one of types with an overloaded operator&, which only C04 and C08 use
USUAL = "CONFIGS <- UsualNames"


def generate(ctx, names=None, nv=2, nf=1, tag="gen"):
    """names: configurations, None for the usual ones. TLC enumerates every call in every distinct storage state of the model and prints a scenario for each."""
    consts = [USUAL if names is None else "CONFIGS = {%s}" % ", ".join('"%s"' % n for n in names),
              "NV = %d" % nv, "NF = %d" % nf, "VALS = {1}", "BUGS = {}", "QUERIES = {}", "GEN = TRUE"]
    out, st = design(ctx, "VariantImpl", tag, consts, ["Contract", "NeverEmpty"], view="ShapeView")
    cfgs = printed(out, "CFG")[0]
    scn = printed(out, "SCN")
    by = {}
    for s in scn:
        by.setdefault(s["cfg"], []).append(s["ops"])
    lst = [dict(c, attr=cfgs["attr"]) for c in cfgs["list"] if c["name"] in by]
    return lst, by


NV, NF = 3, 2            # slots of the driver


def op_text(o, x=None):
    return "%s %d %d %d %d %d %d" % (o["o"], o["d"], o["s"], o["w"], o["x"] if x is None else x, o["c"], o["k"])


def scenario_text(ops, nv):
    """Model slots above nv are foreign slots; in the driver those start at NV + 1. Values are made distinct."""
    m = lambda j: j if j <= nv else j - nv + NV
    return ";".join(op_text(dict(o, d=m(o["d"]), s=m(o["s"])), (11 + 7 * i) if o["x"] else 0) for i, o in enumerate(ops))


def random_histories(c, rnd, n, length, nv, nf):
    """Long random histories over more slots; every call may fail at a random point."""
    attr = c["attr"]
    out = []
    nf = nf if c["kinds"][1] else 0

    def lst(d):
        return c["kinds"][0] if d <= nv else c["kinds"][1]
    for _ in range(n):
        live, ops, val = set(), [], 20
        for _ in range(length):
            d = rnd.randint(1, nv + nf)
            L = lst(d)
            same = [j for j in live if (j <= nv) == (d <= nv)]
            val += 1
            w = rnd.randrange(len(L))
            a = L[w]
            copyable = all(attr[x["cls"]]["hc"] for x in L)
            cc = rnd.choice([0, 1, 2]) if attr[a["cls"]]["hc"] else 2
            k = rnd.choice([0, 0, 0, 1, 1, 2, 2, 3, 4, 5])
            foreign = [j for j in live if j > nv] if d <= nv else []
            fcopy = nf and all(attr[x["cls"]]["hc"] for x in c["kinds"][1])
            if d not in live:
                ch = ["vctor"] * 3 + (["xctor"] if a["cls"] != "blank" and not a["wrap"] else [])
                if attr[L[0]["cls"]]["hd"]:
                    ch.append("dctor")
                if same:
                    ch += ["mctor"] + (["cctor"] * 2 if copyable else [])
                if foreign:
                    ch += ["fctor"]
            else:
                ch = ["vas"] * 3 + (["xas"] if a["cls"] != "blank" and not a["wrap"] else []) + ["mut"] + (["dtor"] if rnd.random() < .4 else [])
                if same:
                    ch += ["mas"] * 3 + ["swap"] * 3 + (["cas"] * 4 if copyable else [])
                if foreign:
                    ch += ["fas"] * 2
            n_ = rnd.choice(ch)
            o = dict(o=n_, d=d, s=0, w=0, x=0, c=0, k=k)
            if n_ in ("vctor", "vas"):
                o.update(w=w, x=val if a["cls"] != "blank" else 0, c=cc)
            elif n_ in ("xctor", "xas"):
                o.update(w=w, x=val, c=rnd.choice([1, 2]))
            elif n_ in ("cctor", "cas"):
                o.update(s=rnd.choice(same), c=rnd.choice([0, 1, 3]))
            elif n_ in ("mctor", "mas"):
                o.update(s=rnd.choice(same), c=2)
            elif n_ == "swap":
                o.update(s=rnd.choice(same), c=rnd.choice([0, 1]))
            elif n_ in ("fctor", "fas"):
                o.update(s=rnd.choice(foreign), c=rnd.choice([0, 1, 2]) if fcopy else 2)
            elif n_ == "mut":
                o.update(x=val, c=rnd.randrange(4))
            elif n_ == "dtor":
                o.update(k=0)
            ops.append(o)
            if n_ == "dtor":
                live.discard(d)
            elif n_.endswith("ctor"):
                live.add(d)      # may turn out to have failed: the driver then skips calls on it
        out.append("P " + ";".join(op_text(o) for o in ops))
    return out


def core_jobs(ctx, cfgs, by, nv=2, ops=None, std="c++17", cxx="g++", nrand=None, flags=None, defs=(), tag="core", form=("direct", 0), thin=1):
    """Scripts and drivers: one per configuration. thin: use every thin-th scenario."""
    thorough = TIER == "thorough"
    rnd = random.Random(SEED * 1000003 + len(tag))
    jobs, scripts = [], []
    for c in cfgs:
        lines = ["T " + scenario_text(o, nv) for o in by[c["name"]] if ops is None or o[-1]["o"] in ops]
        if thin > 1:
            lines = lines[rnd.randrange(thin)::thin]
        lines += random_histories(c, rnd, nrand or (60 if not thorough else 1500), 30, NV, NF)
        p = ctx.path("scripts", tag + c["name"])
        with open(p, "w") as f:
            f.write("\n".join(lines) + "\n")
        j = dict(src=os.path.join(HARN, "core.cpp"), std=std, cxx=cxx, name="%s_%s" % (tag, c["name"]),
                 defs=['-DCFG_HEADER="%s"' % cfg_header(ctx, c, NV, NF, form)] + list(defs))
        if flags:
            j["flags"] = flags
        jobs.append(j)
        scripts.append(p)
    return jobs, scripts


def run_jobs(ctx, jobs, scripts, rep=""):
    files = [ctx.path("traces", j["name"] + rep + ".ndjson") for j in jobs]
    cr = pool(lambda t: run_script(ctx, *t), list(zip([j["exe"] for j in jobs], scripts, files)))
    ctx.log("ran %d drivers, %d crashes" % (len(jobs), sum(cr)))
    return files


def core_check(ctx, names=None, ops=None, nrand=None, tag="core", prop=None, **k):
    cfgs, by = generate(ctx, names, 2, 1, tag + ".gen")
    jobs, scripts = core_jobs(ctx, cfgs, by, 2, ops, nrand=nrand, tag=tag, **k)
    build(ctx, jobs)
    files = run_jobs(ctx, jobs, scripts)
    ctx.cov["scenarios_generated_by_TLC"] = ctx.cov.get("scenarios_generated_by_TLC", 0) + sum(len(by[c["name"]]) for c in cfgs)
    validate(ctx, "VariantTrace", files, tag, prop=prop)
