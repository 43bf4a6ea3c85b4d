"""C12: the placeholder recursive_variant_ inside bounded types (Substitute)."""
from vlib import *


def cpp(t, rec):
    a = [cpp(x, rec) for x in t[1:]]
    k = t[0]
    if k == "rec":
        return rec
    if k == "int":
        return "int"
    if k == "ptr":
        return "typename std::add_pointer<%s >::type" % a[0]
    if k == "cptr":
        return "typename std::add_pointer<typename std::add_const<%s >::type>::type" % a[0]
    if k == "ref":
        return "typename std::add_lvalue_reference<%s >::type" % a[0]
    if k == "cref":
        return "typename std::add_lvalue_reference<typename std::add_const<%s >::type>::type" % a[0]
    if k in ("vec", "tup"):
        return "%s<%s >" % (k, ", ".join(a))
    if k == "pair":
        return "pr<%s >" % ", ".join(a)
    return "typename std::add_pointer<%s (%s)>::type" % (a[0], ", ".join(a[1:]))


def subst_check(ctx, tag="subst", std="c++17", cxx="g++", flags=None, ntu=8, defs=(), prop=None):
    out, st = design(ctx, "SubstituteGen", tag + ".gen", [], ["NoneLeft", "Untouched"])
    terms = sorted(printed(out, "TRM"), key=json.dumps)
    jobs = []
    for k in range(ntu):
        p = ctx.path("src", "%s%d.cpp" % (tag, k))
        part = terms[k::ntu]
        with open(p, "w") as f:
            f.write('#include "subst.hpp"\nusing namespace su;\n')
            for j, t in enumerate(part):
                w = cpp(t, "rec")
                made = "boost::make_recursive_variant<long, %s >::type" % w if (j + k) % 2 else "boost::make_recursive_variant_over<boost::mpl::vector<long, %s > >::type" % w
                f.write('template <int> struct W%d { typedef typename %s V; typedef %s T; };\n' % (j, made, cpp(t, "V")))
            f.write("int main() { vh::install();\n")
            for j, t in enumerate(part):
                f.write('go<W%d<0>::V, W%d<0>::T>(%s, "%s");\n' % (j, j, json.dumps(json.dumps(t)), ["over", "direct"][(j + k) % 2]))
            f.write("sink_flush(); return 0; }\n")
        jobs.append(dict(name="%s%d" % (tag, k), src=p, std=std, cxx=cxx, flags=flags or ["-g0", "-O0", "-w"], defs=list(defs)))
    exes = build(ctx, jobs)
    files = [ctx.path("traces", j["name"] + ".ndjson") for j in jobs]
    run_plain(ctx, exes, files)
    ctx.cov["substituted_types"] = len(terms)
    validate(ctx, "SubstituteTrace", files, tag, prop=prop)
