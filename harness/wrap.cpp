// Driver for recursive_wrapper by itself (Wrapper.tla). WRAP_ELEM: element class, WRAP_COPY: whether it can be copied.
#define VH_MAIN
#include "track.hpp"
#include <string>
#include <vector>
#include <iostream>
#include <fstream>
#include <sstream>
#include <boost/variant/recursive_wrapper.hpp>
using namespace vh;
typedef WRAP_ELEM<1, 4> T;
typedef boost::recursive_wrapper<T> W;
enum { NS = 3 };
alignas(16) static unsigned char mem[NS + 1][sizeof(W)]; static bool live[NS + 1];
static W& at(int i) { return *reinterpret_cast<W*>(mem[i]); }
struct Op { std::string n; int d, s, x; };
template <bool C> struct Copies {
    static bool run(const Op& o, const T& arg) {
        if (o.n == "cvctor") { new (mem[o.d]) W(arg); live[o.d] = true; }
        else if (o.n == "cctor") { const W& s = at(o.s); new (mem[o.d]) W(s); live[o.d] = true; }
        else if (o.n == "cas") { const W& s = at(o.s); at(o.d) = s; }
        else if (o.n == "cvas") at(o.d) = arg;
        else return false;
        return true;
    }
};
template <> struct Copies<false> { static bool run(const Op&, const T&) { return false; } };
static void call(const Op& o, T& arg) {
    using boost::swap;
    if (o.n == "dctor") { new (mem[o.d]) W(); live[o.d] = true; }
    else if (o.n == "mvctor") { new (mem[o.d]) W(std::move(arg)); live[o.d] = true; }
    else if (o.n == "mctor") { new (mem[o.d]) W(std::move(at(o.s))); live[o.d] = true; }
    else if (o.n == "mas") at(o.d) = std::move(at(o.s));
    else if (o.n == "mvas") at(o.d) = std::move(arg);
    else if (o.n == "mswap") at(o.d).swap(at(o.s));
    else if (o.n == "fswap") swap(at(o.d), at(o.s));
    else if (o.n == "dtor") { live[o.d] = false; at(o.d).~W(); }
    else if (!Copies<WRAP_COPY>::run(o, arg)) { std::fprintf(stderr, "unknown call %s\n", o.n.c_str()); std::_Exit(9); }
}
static long objects;
static void step(const Op& o, int k, bool first) {
    Out& u = out(); const char* r = "ok"; int fired;
    st().cur = "call"; std::strncpy(st().last, o.n.c_str(), 15);
    int ne, nx = 0, na;
    {
        T arg((Val(o.x))); st().nev = 0;
        arm(k);
        try { call(o, arg); } catch (Fault&) { r = "fault"; } catch (std::bad_alloc&) { r = "fault"; } catch (...) { r = "other"; }
        disarm(); fired = st().fired; ne = 0; na = st().nalloc;
        for (int i = 0; i < st().nev; ++i) { char c = st().ev[i].k; if (c == 'c' || c == 'k' || c == 'm') ++objects; if (c == 'd') --objects; if (c == 'x') ++nx; else ++ne; }
    }
    st().cur = "observe";
    if (!first) u.s(",");
    u.s("{\"o\":\""); u.s(o.n.c_str()); u.s("\",\"d\":"); u.i(o.d); u.s(",\"s\":"); u.i(o.s); u.s(",\"x\":"); u.i(o.x); u.s(",\"k\":"); u.i(k);
    u.s(",\"r\":\""); u.s(r); u.s("\",\"st\":[");
    for (int i = 1; i <= NS; ++i) {
        u.s(i > 1 ? ",[" : "["); u.i(live[i]); u.s(",");
        if (!live[i]) { u.s("0,0,0]"); continue; }
        const W& cw = at(i); W& w = at(i); const T* p = cw.get_pointer();
        u.i(p ? aid(p) : 0); u.s(","); u.i(p && p->good() ? p->val : -99); u.s(",");
        u.i(p && p->good() && std::addressof(cw.get()) == p && std::addressof(w.get()) == p && w.get_pointer() == p); u.s("]");
    }
    u.s("],\"ne\":"); u.i(ne); u.s(",\"nx\":"); u.i(nx); u.s(",\"na\":"); u.i(na); u.s(",\"nf\":"); u.i(objects); u.s(",\"out\":"); u.i(st().outstanding); u.s("}"); u.done();
    (void)fired;
}
static bool scenario(long id, const std::vector<Op>& ops, int k) {
    reset(); objects = 0; for (int i = 1; i <= NS; ++i) live[i] = false;
    out().clear(); Out& u = out(); u.s("{\"cfg\":\"" WRAP_NAME "\",\"id\":"); u.i(id); u.s(",\"k\":"); u.i(k); u.s(",\"steps\":["); u.done(); alarm(20);
    bool fired = false;
    for (size_t i = 0; i < ops.size(); ++i) { step(ops[i], i + 1 == ops.size() ? k : 0, i == 0); if (i + 1 == ops.size()) fired = st().fired != 0; }
    for (int i = 1; i <= NS; ++i) if (live[i]) { Op e = { "dtor", i, 0, 0 }; step(e, 0, false); }
    alarm(0); u.s("]}\n"); scenario_done(); return fired;
}
int main(int argc, char** argv) {
    install(); if (argc < 2) std::_Exit(9);
    std::ifstream in(argv[1]); if (!in) std::_Exit(9);
    long id = -1, start = argc > 2 ? std::atol(argv[2]) : 0; std::string l;
    while (std::getline(in, l)) {
        if (++id < start) continue;
        std::vector<Op> ops; std::istringstream is(l); std::string e;
        while (std::getline(is, e, ';')) { std::istringstream x(e); Op o; x >> o.n >> o.d >> o.s >> o.x; ops.push_back(o); }
        for (int k = 0; ; ++k) { bool f = scenario(id, ops, k); if (k > 0 && !f) break; if (k > 50) std::_Exit(9); }
    }
    sink_flush(); return 0;
}
