"""C17: which programs compile (Interface.tla) and what type traits say (Conversion.tla)."""
import random, itertools
from vlib import *

OPND = {"crv": "crv<V>()", "lv": "lv<V>()", "clv": "clv<V>()", "rv": "rv<V>()", "ptr": "&lv<V>()", "cptr": "&clv<V>()"}


def vt(l):
    return "boost::variant<%s>" % ", ".join(l)


def text(p):
    f = p["f"]
    h = '#include "prog.hpp"\n'
    if f == "visit":
        kinds = {"ref": "%s&", "cref": "const %s&", "val": "%s", "rref": "%s&&", "crref": "const %s&&"}
        sv = " : boost::static_visitor<int>" if p["st"] == "sv" else ""
        ov = " ".join("int operator()(%s) const { return 1; }" % (kinds[k] % t) for t, k in zip(p["l"], p["h"]) if k != "none")
        # one overload always exists, for a type that is no alternative
        return h + "typedef %s V; struct Vis%s { int operator()(const Z&) const { return 0; } %s }; int f() { Vis v; return boost::apply_visitor(v, %s); }" % (vt(p["l"]), sv, ov, OPND[p["cat"]])
    if f == "mixed":
        kinds = {"ref": "T&", "cref": "const T&", "val": "T", "rref": "T&&"}
        combos = list(itertools.product("AB", repeat=len(p["h"])))
        ov = " ".join("int operator()(%s) const { return 1; }" % ", ".join(kinds[k].replace("T", x) for k, x in zip(p["h"], c)) for c in combos)
        return h + "typedef boost::variant<A, B> V; struct Vis : boost::static_visitor<int> { %s }; int f() { Vis v; return boost::apply_visitor(v, %s); }" % (ov, ", ".join(OPND[c] for c in p["c"]))
    if f == "delay":
        c = " const" if p["op"] == "const" else ""
        ov = " ".join("int operator()(%s)%s { return 1; }" % (", ".join("const %s&" % x for x in k), c) for k in itertools.product("AB", repeat=p["n"]))
        if p["pass"] == "tmp":
            body = "return boost::apply_visitor(Vis())(%s);" % ", ".join(["lv<V>()"] * p["n"]) if p["used"] else "(void)boost::apply_visitor(Vis()); return 0;"
        else:
            q = {"lv": "Vis", "clv": "const Vis"}[p["pass"]]
            body = "boost::apply_visitor_delayed_t<%s> d = boost::apply_visitor(%s<Vis>()); (void)d; %s" % (q, p["pass"], "return d(%s);" % ", ".join(["lv<V>()"] * p["n"]) if p["used"] else "return 0;")
        return h + "typedef boost::variant<A, B> V; struct Vis : boost::static_visitor<int> { %s }; int f() { %s }" % (ov, body)
    if f == "hdr":
        u = {"alone": "", "stdhash": "#include <boost/functional/hash.hpp>\n#include <functional>\nstd::size_t f(const boost::variant<int, double>& v) { return std::hash<boost::variant<int, double> >()(v); }",
             "ownhash": "#include <functional>\nnamespace std { template <class... T> struct hash< boost::variant<T...> > { std::size_t operator()(const boost::variant<T...>&) const { return 1; } }; }\nstd::size_t f(const boost::variant<int, double>& v) { return std::hash<boost::variant<int, double> >()(v); }",
             "boosthash": "#include <boost/functional/hash.hpp>\nstd::size_t f(const boost::variant<int, double>& v) { return boost::hash<boost::variant<int, double> >()(v); }",
             "io": "#include <iostream>\nvoid f(const boost::variant<int, double>& v) { std::cout << v; }"}[p["u"]]
        return "#include <boost/%s>\n%s" % (p["h"], u)
    if f == "vconst":
        c = " const" if p["op"] == "const" else ""
        pas = {"lv": "lv<Vis>()", "clv": "clv<Vis>()", "tmp": "Vis()"}[p["pass"]]
        return h + "typedef boost::variant<A, B> V; struct Vis : boost::static_visitor<int> { int operator()(const A&)%s { return 1; } int operator()(const B&)%s { return 1; } }; int f() { return boost::apply_visitor(%s, %s); }" % (c, c, pas, OPND[p["cat"]])
    if f == "multi":
        combos = list(itertools.product("AB", repeat=p["n"]))
        ov = " ".join("int operator()(%s) const { return 1; }" % ", ".join("const %s&" % x for x in c) for i, c in enumerate(combos) if i + 1 != p["miss"])
        return h + "typedef boost::variant<A, B> V; struct Vis : boost::static_visitor<int> { %s }; int f() { Vis v; return boost::apply_visitor(v, %s); }" % (ov, ", ".join([OPND[p["cat"]]] * p["n"]))
    if f == "vret":
        r = ["None" if p["bad"] == j + 1 else "int" for j in range(2)]
        return h + "typedef boost::variant<A, B> V; struct Vis : boost::static_visitor<int> { %s operator()(const A&) const { return %s(); } %s operator()(const B&) const { return %s(); } }; int f() { Vis v; return boost::apply_visitor(v, %s); }" % (r[0], r[0], r[1], r[1], OPND[p["cat"]])
    if f == "vlong":
        n = 20
        ov = " ".join("int operator()(const T<%d>&) const { return 1; }" % j for j in range(1, n + 1) if j != p["miss"])
        return h + "typedef boost::variant<%s> V; struct Vis : boost::static_visitor<int> { %s }; int f() { Vis v; return boost::apply_visitor(v, lv<V>()); }" % (", ".join("T<%d>" % j for j in range(1, n + 1)), ov)
    if f in ("get", "rget"):
        return h + "typedef %s V; void f() { (void)boost::%s<%s>(%s); }" % (vt(p["l"]), p["fn"], p["u"], OPND[p["o"]])
    if f == "bind":
        to = {"ref": "A&", "cref": "const A&", "rref": "A&&", "p": "A*", "cp": "const A*", "amp": "const A&"}[p["to"]]
        return h + "typedef boost::variant<A, B> V; void f() { %s r = boost::%s<%s>(%s); (void)r; }" % (to, p["fn"], "A&" if p["to"] == "amp" else "A", OPND[p["o"]])
    if f == "cmp":
        l, r = {"same": ("A, B", "V"), "bounded": ("A, B", "A"), "other": ("A, B", "C"), "foreign": ("A, B", "boost::variant<B, A>"), "foreign-sub": ("A, B", "boost::variant<A>"),
                "noops": ("A, NoOps", "V"), "eqonly": ("A, EqOnly", "V"), "ltonly": ("LtOnly, A", "V"), "int": ("int, std::string", "int")}[p["rhs"]]
        a, b = ("V", r) if p["u"] != "left" else (r, "V")
        return h + "typedef boost::variant<%s> V; %s clv<%s>() %s clv<%s>(); }" % (l, "void f() {" if p["u"] == "unused" else "bool f() { return", a, p["op"], b)
    if f == "special":
        t = {"B": "B", "M": "M", "Q": "Q", "K": "const B", "R": "B&", "Nd": "Nd", "W": "boost::recursive_wrapper<B>"}[p["t"]]
        l = "%s, A" % t if p["first"] else "A, %s" % t
        mk = {"B": "V x((B()));", "M": "V x((M()));", "Q": "V x((Q()));", "K": "V x((B()));", "R": "V x(someB());", "Nd": "V x((Nd(1)));", "W": "V x((B()));"}[p["t"]]
        op = {"cctor": "V y(clv<V>());", "mctor": "V y(rv<V>());", "casg": "lv<V>() = clv<V>();", "masg": "lv<V>() = rv<V>();", "vasg": "lv<V>() = A();",
              "swap": "lv<V>().swap(lv<V>());", "dctor": "V y;", "vctor": mk + " V y((A())); (void)y;",
              "visit": "struct Vis : boost::static_visitor<> { void operator()(const A&) const {} void operator()(const %s&) const {} }; boost::apply_visitor(Vis(), clv<V>());" % t.replace("const ", "").replace("&", "").replace("boost::recursive_wrapper<B>", "B"),
              "unused": "(void)sizeof(V); (void)lv<V>().which(); (void)lv<V>().type();"}[p["op"]]
        return h + "typedef boost::variant<%s> V; void f() { %s }" % (l, op)
    if f == "use":
        l = ", ".join("Z" if x == "ok" and j == 0 else "std::string" if x == "ok" else "NoOps" for j, x in enumerate(p["l"]))
        use = {"io": "std::ostringstream o; o << clv<V>();", "hash": "boost::hash<V> h; (void)h(clv<V>());"}[p["op"]]
        return h + "typedef boost::variant<%s> V; void f() { V x((std::string())); V y(x); y = x; %s }" % (l if "std::string" in l else l.replace("Z", "std::string"), use if p["used"] else "")
    if f == "make":
        a = {"none": "None"}.get(p["a"], p["a"])
        op = {"ctor": "V x(lv<%s>()); (void)x;", "asg": "lv<V>() = lv<%s>();", "implicit": "V x = rv<%s>(); (void)x;", "arg": "g(clv<%s>());"}[p["op"]] % a
        return h + "typedef %s V; void g(const V&); void g(const boost::variant<Z, Nd>&); void f() { %s }" % (vt(p["l"]), op)
    if f == "fmake":
        if p["s"] == p["l"]:
            pass
        op = {"ctor": "V x(%s); (void)x;", "asg": "lv<V>() = %s;"}[p["op"]] % OPND[p["cat"]].replace("V", "F")
        return h + "typedef %s V; typedef %s F; void f() { %s }" % (vt(p["l"]), vt(p["s"]), op)
    raise CheckError("family " + f)


def prepare(ctx, cxx, std, defs=()):
    d = ctx.path("pch", cxx + std.replace("+", "p") + "_%d" % len(defs), "prog.hpp")
    shutil.copy(os.path.join(HARN, "prog.hpp"), d)
    base = [cxx, "-std=" + std, "-w", "-I" + os.path.join(REPO, "include")] + list(defs)
    outp = d + (".gch" if cxx.startswith("g++") else ".pch")
    p = subprocess.run(base + ["-x", "c++-header", d, "-o", outp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        rp = ctx.path("replay", "compile.txt")
        open(rp, "w").write(" ".join(base) + "\n" + p.stdout.decode("utf-8", "replace")[:6000])
        raise Violation("the headers do not compile (%s %s)" % (cxx, std), rp)
    return base + ["-fsyntax-only"] + (["-I" + os.path.dirname(d)] if cxx.startswith("g++") else ["-include-pch", outp])


def programs(ctx, progs, cxx, std, tag, defs=()):
    cmd = prepare(ctx, cxx, std, defs)
    plain = [cxx, "-std=" + std, "-w", "-fsyntax-only", "-I" + os.path.join(REPO, "include")] + list(defs)

    def one(t):
        i, p = t
        src = ctx.path("src", "%s%d.cpp" % (tag, i))
        s = text(p)
        if not cxx.startswith("g++"):
            s = s.replace('#include "prog.hpp"\n', "")
        open(src, "w").write(s + "\n")
        r = subprocess.run((plain + [x for x in [p["m"]] if x] if p["f"] == "hdr" else cmd) + [src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if r.returncode not in (0, 1):
            raise CheckError("compiler crashed on " + src)
        return {"cfg": "%s-%s" % (cxx, std), "id": i, "steps": [{"o": "prog", "p": p, "ok": r.returncode == 0}]}
    res = pool(one, list(enumerate(progs)))
    fn = ctx.path("traces", tag + ".ndjson")
    with open(fn, "w") as f:
        for r in res:
            f.write(json.dumps(r) + "\n")
    return fn, sum(r["steps"][0]["ok"] for r in res)


TRAIT_ALTS = list("bcsiulfdPSeBDXYZ")


def traits(ctx, tag, cxx="g++", std="c++17", ntu=8, nl=None):
    """Type traits of construction and assignment over many lists and argument types."""
    rnd = random.Random(SEED * 13 + 1)
    lists = [(a,) for a in TRAIT_ALTS] + list(itertools.permutations(TRAIT_ALTS, 2))
    lists = lists if TIER == "thorough" else [l for l in lists if len(l) == 1] + rnd.sample([l for l in lists if len(l) == 2], nl or 110)
    lists += [tuple(rnd.sample(TRAIT_ALTS, 3)) for _ in range(20 if TIER != "thorough" else 200)]
    jobs = []
    for k in range(ntu):
        p = ctx.path("src", "%s_tr%d.cpp" % (tag, k))
        with open(p, "w") as f:
            f.write('''#include "conv.hpp"
using namespace cv;
template <class V, class A> void row(const char* l, const char* a, const char* fv) {
    std::printf("{\\"o\\":\\"trait\\",\\"l\\":[%%s],\\"a\\":\\"%%s\\",\\"fv\\":[%%s],\\"ctor\\":%%s,\\"conv\\":%%s,\\"asg\\":%%s}\\n", l, a, fv,
        std::is_constructible<V, A>::value ? "true" : "false", std::is_convertible<A, V>::value ? "true" : "false", std::is_assignable<V&, A>::value ? "true" : "false"); }
int main() {\n''' .replace("%%", "%"))
            for l in lists[k::ntu]:
                q = ",".join('\\"%s\\"' % t for t in l)
                f.write("{ typedef boost::variant<%s> V;\n" % ", ".join(l))
                for j, a in enumerate(TRAIT_ALTS):
                    f.write('row<V, %s>("%s", "%s", "");\n' % (["%s", "%s&", "const %s&", "const %s", "%s"][(j + len(q)) % 5] % ("cv::" + a), q, a))
                for _ in range(3):
                    s = rnd.sample(TRAIT_ALTS, rnd.choice([1, 2, 2]))
                    if tuple(s) == tuple(l):
                        continue
                    f.write('row<V, %s >("%s", "", "%s");\n' % (rnd.choice(["boost::variant<%s>", "const boost::variant<%s>&", "boost::variant<%s>&", "const boost::variant<%s>"]) % ", ".join("cv::" + x for x in s), q, ",".join('\\"%s\\"' % t for t in s)))
                f.write("}\n")
            f.write("}\n")
        jobs.append(dict(name="%s_tr%d" % (tag, k), src=p, cxx=cxx, std=std, flags=["-O0", "-g0", "-w"]))
    exes = build(ctx, jobs)
    fn = ctx.path("traces", tag + "_tr.ndjson")
    n = 0
    with open(fn, "w") as f:
        for j, x in zip(jobs, exes):
            outp = ctx.path("traces", j["name"] + ".txt")
            open(outp, "w").close()
            if run_driver(ctx, x, [], outp):
                raise CheckError("trait driver failed")
            rows = [json.loads(l) for l in open(outp)]
            n += len(rows)
            for a in range(0, len(rows), 40):
                f.write(json.dumps({"cfg": "traits-%s-%s" % (cxx, std), "id": n + a, "steps": rows[a:a + 40]}) + "\n")
    ctx.log("%d trait questions" % n)
    return fn


def prog_check(ctx, tag="prog"):
    cfg = ctx.path(tag + ".cfg")
    out, st = design(ctx, "InterfaceGen", tag + ".gen", [], ["MoreHandlers", "ConstWorse", "StrictInRelaxed", "StrictInPoly"])
    prg = sorted(printed(out, "PRG"), key=lambda x: json.dumps(x))
    progs = [x["p"] for x in prg]
    rnd = random.Random(SEED * 5 + 3)
    files = []
    fn, ok = programs(ctx, [p for p in progs if p["f"] != "rget"], "g++", "c++17", tag + "_g17")
    ctx.log("g++ c++17: %d programs, %d compile" % (len(progs), ok))
    files.append(fn)
    fn, ok = programs(ctx, [p for p in progs if p["f"] == "rget"], "g++", "c++17", tag + "_rel", ["-DBOOST_VARIANT_USE_RELAXED_GET_BY_DEFAULT"])
    files.append(fn)
    progs = [p for p in progs if p["f"] != "rget"]
    extra = [("clang++", "c++14"), ("g++", "c++11")] if TIER != "thorough" else [(c, s) for c in ("g++", "clang++") for s in ("c++11", "c++14", "c++17", "c++20")]
    for c, s in extra:
        ps = progs if TIER == "thorough" else rnd.sample(progs, 130)
        if s == "c++11":
            ps = [p for p in ps if p.get("st") != "gen"]
        fn, ok = programs(ctx, ps, c, s, "%s_%s%s" % (tag, c[0], s[-2:]))
        ctx.log("%s %s: %d programs, %d compile" % (c, s, len(ps), ok))
        files.append(fn)
    files.append(traits(ctx, tag))
    ctx.cov["programs"] = len(progs)
    validate(ctx, "InterfaceTrace", files, tag)
