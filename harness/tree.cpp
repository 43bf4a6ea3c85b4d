// Driver for recursive variants (RecTree.tla).   usage: tree SCRIPT [first-line]
// script lines: S val|tree|tree|op      one operation in a given state, with every fault point in turn
//               H val|tree|tree|op;op;..  a history; each op carries its fault point; paths are taken modulo what is there
// tree: "alt nchildren child..." in prefix form, "0" for no variant.   op: name d s a c x k len path...
#define VH_MAIN
#include "track.hpp"
#include <boost/variant.hpp>
#include <boost/variant/recursive_variant.hpp>
#include <boost/functional/hash.hpp>
#include <boost/mpl/vector.hpp>
#include <vector>
#include <map>
#include <set>
#include <string>
#include <fstream>
#include <sstream>
using namespace vh;
struct Leaf : TREE_ELEM<1> { explicit Leaf(int x) : TREE_ELEM<1>(Val(x)) {} };
inline bool operator==(const Leaf& a, const Leaf& b) { return a.val == b.val; }
inline bool operator<(const Leaf& a, const Leaf& b) { return a.val < b.val; }
inline std::size_t hash_value(const Leaf& a) { return (std::size_t)a.val * 31 + 7; }
const int LEAF = LEAF_ALT;

#define T_vec 1
#define T_bin 2
#define T_ovr 3
#define T_add 4
#define T_map 5
#define T_nst 6
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define KIND CAT(T_, TREE)
#if KIND == T_vec
typedef boost::make_recursive_variant<Leaf, std::vector<boost::recursive_variant_> >::type V;
#elif KIND == T_bin
struct Bin; typedef boost::variant<Leaf, boost::recursive_wrapper<Bin> > V;
#elif KIND == T_ovr
typedef boost::make_recursive_variant_over<boost::mpl::vector<Leaf, std::pair<boost::recursive_variant_, boost::recursive_variant_>, std::vector<boost::recursive_variant_> > >::type V;
#elif KIND == T_add
struct Bin; struct Neg; typedef boost::variant<boost::recursive_wrapper<Bin>, Leaf, boost::recursive_wrapper<Neg> > V;
#elif KIND == T_map
typedef boost::make_recursive_variant<Leaf, std::map<int, boost::recursive_variant_> >::type V;
#elif KIND == T_nst
typedef boost::make_recursive_variant<Leaf, std::pair<int, std::vector<boost::recursive_variant_> > >::type V;
#endif
#if KIND == T_bin || KIND == T_add
struct Bin { V l; Leaf tag; V r; Bin(const V& a, int x, const V& b) : l(a), tag(x), r(b) {} Bin(V&& a, int x, const V& b) : l(std::move(a)), tag(x), r(b) {} };
inline bool operator==(const Bin& a, const Bin& b) { return a.tag == b.tag && a.l == b.l && a.r == b.r; }
inline bool operator<(const Bin& a, const Bin& b) { return a.tag < b.tag || (a.tag == b.tag && (a.l < b.l || (a.l == b.l && a.r < b.r))); }
inline std::size_t hash_value(const Bin& a) { std::size_t h = hash_value(a.tag); boost::hash_combine(h, hash_value(a.l)); boost::hash_combine(h, hash_value(a.r)); return h; }
#endif
#if KIND == T_add
struct Neg { Leaf tag; V x; Neg(int t, const V& a) : tag(t), x(a) {} Neg(int t, V&& a) : tag(t), x(std::move(a)) {} };
inline bool operator==(const Neg& a, const Neg& b) { return a.tag == b.tag && a.x == b.x; }
inline bool operator<(const Neg& a, const Neg& b) { return a.tag < b.tag || (a.tag == b.tag && a.x < b.x); }
inline std::size_t hash_value(const Neg& a) { std::size_t h = hash_value(a.tag); boost::hash_combine(h, hash_value(a.x)); return h; }
#endif
typedef std::vector<V> Vec;

struct Info { int val; const void* addr; std::vector<V*> ch; Info() : val(0), addr(0) {} };
struct Look : boost::static_visitor<Info> {
    Info operator()(Leaf& x) const { Info r; r.val = x.good() ? x.val : -99; r.addr = static_cast<Base<1>*>(std::addressof(x)); return r; }
#if KIND == T_vec || KIND == T_ovr
    Info operator()(Vec& v) const { Info r; r.addr = &v; for (size_t i = 0; i < v.size(); ++i) r.ch.push_back(&v[i]); return r; }
#endif
#if KIND == T_ovr
    Info operator()(std::pair<V, V>& p) const { Info r; r.ch.push_back(&p.first); r.ch.push_back(&p.second); return r; }
#endif
#if KIND == T_bin || KIND == T_add
    Info operator()(Bin& b) const { Info r; r.val = b.tag.good() ? b.tag.val : -99; r.addr = static_cast<Base<1>*>(std::addressof(b.tag)); r.ch.push_back(&b.l); r.ch.push_back(&b.r); return r; }
#endif
#if KIND == T_add
    Info operator()(Neg& b) const { Info r; r.val = b.tag.good() ? b.tag.val : -99; r.addr = static_cast<Base<1>*>(std::addressof(b.tag)); r.ch.push_back(&b.x); return r; }
#endif
#if KIND == T_map
    Info operator()(std::map<int, V>& m) const { Info r; r.addr = &m; for (std::map<int, V>::iterator i = m.begin(); i != m.end(); ++i) r.ch.push_back(&i->second); return r; }
#endif
#if KIND == T_nst
    Info operator()(std::pair<int, Vec>& p) const { Info r; r.val = p.first; r.addr = &p; for (size_t i = 0; i < p.second.size(); ++i) r.ch.push_back(&p.second[i]); return r; }
#endif
};
inline Info look(V& v) { return boost::apply_visitor(Look(), v); }
struct SetV : boost::static_visitor<> {
    int x; explicit SetV(int y) : x(y) {}
    void operator()(Leaf& l) const { l.val = x; }
    template <class T> void operator()(T& t) const { set(t, 0); }
    template <class T> auto set(T& t, int) const -> decltype((void)t.tag) { t.tag.val = x; }
    template <class T> void set(T& t, long) const { setp(t); }
    template <class T> void setp(T&) const { std::_Exit(9); }
    template <class B> void setp(std::pair<int, B>& p) const { p.first = x; }
};
// a node of alternative a (1-based) around u
template <class U> V* wrap_new(void* mem, int a, U&& u, int x) {
#if KIND == T_vec
    Vec n; n.reserve(1); n.push_back(std::forward<U>(u)); return ::new (mem) V(std::move(n));
#elif KIND == T_bin
    return ::new (mem) V(Bin(std::forward<U>(u), x, V(Leaf(x))));
#elif KIND == T_ovr
    if (a == 2) return ::new (mem) V(std::pair<V, V>(std::forward<U>(u), V(Leaf(x))));
    Vec n; n.push_back(std::forward<U>(u)); return ::new (mem) V(n);
#elif KIND == T_add
    if (a == 1) return ::new (mem) V(Bin(std::forward<U>(u), x, V(Leaf(x))));
    Neg n(x, std::forward<U>(u)); return ::new (mem) V(n);
#elif KIND == T_map
    std::map<int, V> n; n.insert(std::pair<const int, V>(0, std::forward<U>(u))); return ::new (mem) V(std::move(n));
#elif KIND == T_nst
    std::pair<int, Vec> n; n.first = x; n.second.push_back(std::forward<U>(u)); return ::new (mem) V(std::move(n));
#endif
}
template <class U> void push(V& at, U&& u) {
#if KIND == T_vec || KIND == T_ovr
    boost::get<Vec>(at).push_back(std::forward<U>(u));
#elif KIND == T_map
    std::map<int, V>& m = boost::get<std::map<int, V> >(at); m.insert(std::pair<const int, V>((int)m.size(), std::forward<U>(u)));
#elif KIND == T_nst
    boost::get<std::pair<int, Vec> >(at).second.push_back(std::forward<U>(u));
#else
    std::_Exit(9);
#endif
}
static int valn, valmode, valbase;
static int fresh() { ++valn; return valmode == 0 ? 10 + valn : valmode == 1 ? 12 : 10 + valn % 2; }
static V build(std::istringstream& in, int a) {
    int n; in >> n; int x = fresh();
    std::vector<V> c; c.reserve(n + 1);
    for (int i = 0; i < n; ++i) { int b; in >> b; c.push_back(build(in, b)); }
    if (a == LEAF) return V(Leaf(x));
#if KIND == T_vec
    return V(c);
#elif KIND == T_bin
    return V(Bin(c[0], x, c[1]));
#elif KIND == T_ovr
    if (a == 2) return V(std::pair<V, V>(c[0], c[1]));
    return V(c);
#elif KIND == T_add
    if (a == 1) return V(Bin(c[0], x, c[1]));
    return V(Neg(x, c[0]));
#elif KIND == T_map
    std::map<int, V> m; for (int i = 0; i < n; ++i) m.insert(std::pair<const int, V>(i, c[i])); return V(m);
#elif KIND == T_nst
    return V(std::pair<int, Vec>(x, c));
#endif
}

const int NSLOT = 3;
alignas(64) static unsigned char mem[NSLOT + 1][sizeof(V) + 64];
static bool live[NSLOT + 1];
static V& S(int j) { return *reinterpret_cast<V*>(mem[j]); }

static std::set<int>* alive; static int errs; static int evpos;
static void digest() {
    Pause p; State& s = st();
    for (; evpos < s.nev; ++evpos) {
        State::Ev& e = s.ev[evpos];
        switch (e.k) {
        case 'c': case 'k': case 'm': if (!alive->insert(e.a).second) ++errs; if (e.src && !alive->count(e.src)) ++errs; break;
        case 'd': if (!alive->erase(e.a)) ++errs; break;
        case 'a': case 'v': if (!alive->count(e.a) || (e.src && !alive->count(e.src))) ++errs; break;
        }
    }
    s.nev = 0; evpos = 0;
}
struct Op { char o[8]; int d, s, a, c, x, k; std::vector<int> p; };
static V& sub(V& v, const std::vector<int>& p) { V* r = &v; for (size_t i = 0; i < p.size(); ++i) { Info f = look(*r); r = f.ch.at(p[i] - 1); } return *r; }
static void resolve(V& v, std::vector<int>& p) {
    std::vector<int> q; V* r = &v;
    for (size_t i = 0; i < p.size(); ++i) { Info f = look(*r); if (f.ch.empty()) break; int j = (p[i] - 1) % (int)f.ch.size(); q.push_back(j + 1); r = f.ch[j]; }
    p = q;
}
static bool grows(V& v) {
#if KIND == T_bin || KIND == T_add
    return false;
#elif KIND == T_ovr
    return v.which() == 2;
#else
    return v.which() == 1;
#endif
}
static bool enabled(Op& op) {
    std::string n(op.o); bool D = live[op.d], R = op.s ? live[op.s] : false;
    if (n == "cp") return !D && R;
    if (n == "as") return D && R && (op.d != op.s || op.c < 2);
    if (n == "sw") return D && R;
    if (n == "gr") { if (!(D && R && op.d != op.s)) return false; resolve(S(op.d), op.p); return true; }
    if (n == "ex") { if (!(D && R && op.d != op.s)) return false; resolve(S(op.s), op.p); return true; }
    if (n == "ec") { if (!(!D && R)) return false; resolve(S(op.s), op.p); return true; }
    if (n == "mu") { if (!D) return false; resolve(S(op.d), op.p); V& v = sub(S(op.d), op.p);
#if KIND == T_vec || KIND == T_ovr || KIND == T_map
        return v.which() + 1 == LEAF;
#else
        return true;
#endif
    }
    if (n == "lf") { if (!D) return false; resolve(S(op.d), op.p); return true; }
    if (n == "wn") return !D && R && op.a != LEAF;
    if (n == "ps") { if (!(D && R && op.d != op.s)) return false; resolve(S(op.d), op.p); return grows(sub(S(op.d), op.p)); }
    if (n == "dt") return D;
    return false;
}
static const char* perform(Op& op) {
    std::string n; { n = op.o; }
    const char* r = "ok";
    V* at = 0; Leaf* tmp = 0; alignas(64) unsigned char tm[sizeof(Leaf)];
    if (n == "gr" || n == "mu" || n == "lf" || n == "ps") at = &sub(S(op.d), op.p);
    if (n == "ex" || n == "ec") at = &sub(S(op.s), op.p);
    if (n == "lf") tmp = ::new (tm) Leaf(op.x);
    V* src = op.s ? &S(op.s) : 0;
    st().cur = "call"; std::strncpy(st().last, op.o, 7);
    arm(op.k);
    try {
        if (n == "cp") { if (op.c == 0) ::new (mem[op.d]) V(*src); else if (op.c == 1) ::new (mem[op.d]) V(const_cast<const V&>(*src)); else ::new (mem[op.d]) V(std::move(*src)); }
        else if (n == "as") { if (op.c == 0) S(op.d) = *src; else if (op.c == 1) S(op.d) = const_cast<const V&>(*src); else S(op.d) = std::move(*src); }
        else if (n == "sw") { if (op.c == 0) S(op.d).swap(*src); else swap(S(op.d), *src); }
        else if (n == "gr") { if (op.c == 0) *at = const_cast<const V&>(*src); else *at = std::move(*src); }
        else if (n == "ex") { if (op.c == 0) S(op.d) = const_cast<const V&>(*at); else S(op.d) = std::move(*at); }
        else if (n == "ec") { if (op.c == 0) ::new (mem[op.d]) V(const_cast<const V&>(*at)); else ::new (mem[op.d]) V(std::move(*at)); }
        else if (n == "mu") { SetV w(op.x); boost::apply_visitor(w, *at); }
        else if (n == "lf") { if (op.c == 0) *at = const_cast<const Leaf&>(*tmp); else *at = std::move(*tmp); }
        else if (n == "wn") { if (op.c == 0) wrap_new(mem[op.d], op.a, const_cast<const V&>(*src), op.x); else wrap_new(mem[op.d], op.a, std::move(*src), op.x); }
        else if (n == "ps") { if (op.c == 0) push(*at, const_cast<const V&>(*src)); else push(*at, std::move(*src)); }
        else if (n == "dt") { S(op.d).~V(); live[op.d] = false; }
        if (n == "cp" || n == "ec" || n == "wn") live[op.d] = true;
    } catch (Fault&) { r = "fault"; } catch (std::bad_alloc&) { r = "fault"; } catch (...) { r = "other"; }
    disarm();
    if (tmp) tmp->~Leaf();
    return r;
}
static void put_tree(V& v) {
    Out& o = out(); Info f = look(v);
    o.s("["); o.i(v.which() + 1); o.s(","); o.i(f.val); o.s(",[");
    for (size_t i = 0; i < f.ch.size(); ++i) { if (i) o.s(","); put_tree(*f.ch[i]); }
    o.s("],"); o.i(f.addr ? aid(f.addr) : 0); o.s("]");
}
static void observe() {
    Out& o = out(); digest(); st().cur = "observe";
    o.s(",\"tree\":[");
    for (int j = 1; j <= NSLOT; ++j) { if (j > 1) o.s(","); if (live[j]) put_tree(S(j)); else o.s("[0,0,[],0]"); }
    o.s("],\"alive\":"); o.i((long)alive->size()); o.s(",\"err\":"); o.i(errs); o.s(",\"rel\":[");
    bool f = true; boost::hash<V> h;
    for (int j = 1; j <= NSLOT; ++j) for (int m = 1; m <= NSLOT; ++m) if (live[j] && live[m]) {
        const V& a = S(j); const V& b = S(m);
        long v[] = { j, m, a == b, a < b, (long)(h(a) & 0x3fffffff), (long)(h(b) & 0x3fffffff) };
        if (!f) o.s(","); f = false; o.s("["); for (int i = 0; i < 6; ++i) { if (i) o.s(","); o.i(v[i]); } o.s("]");
    }
    o.s("]}"); digest();
}
static void put_op(const Op& op, const char* r) {
    Out& o = out();
    o.s(",{\"o\":\""); o.s(op.o); o.s("\",\"d\":"); o.i(op.d); o.s(",\"s\":"); o.i(op.s); o.s(",\"a\":"); o.i(op.a); o.s(",\"c\":"); o.i(op.c); o.s(",\"x\":"); o.i(op.x); o.s(",\"k\":"); o.i(op.k);
    o.s(",\"p\":["); for (size_t i = 0; i < op.p.size(); ++i) { if (i) o.s(","); o.i(op.p[i]); } o.s("],\"r\":\""); o.s(r); o.s("\"");
}
static Op parse(const std::string& t) {
    std::istringstream i(t); Op op; std::string n; int len = 0; i >> n >> op.d >> op.s >> op.a >> op.c >> op.x >> op.k >> len; std::strncpy(op.o, n.c_str(), 7); op.o[7] = 0;
    for (int j = 0; j < len; ++j) { int q; i >> q; op.p.push_back(q); }
    if (!i) std::_Exit(9);
    return op;
}
int main(int argc, char** argv) {
    install();
    std::ifstream in(argv[1]); int from = argc > 2 ? std::atoi(argv[2]) : 0; std::string line; int id = -1;
    alive = new std::set<int>;
    while (std::getline(in, line)) {
        if (++id < from) continue;
        std::vector<std::string> part; { std::istringstream l(line.substr(2)); std::string t; while (std::getline(l, t, '|')) part.push_back(t); }
        std::vector<Op> ops; { std::istringstream l(part[3]); std::string t; while (std::getline(l, t, ';')) ops.push_back(parse(t)); }
        for (int k = 0; ; ++k) {
            reset(); out().clear(); alive->clear(); errs = 0; evpos = 0; valn = 0; valmode = std::atoi(part[0].c_str());
            for (int j = 1; j <= NSLOT; ++j) live[j] = false;
            Out& o = out();
            alarm(60);
            for (int j = 1; j <= 2; ++j) { std::istringstream t(part[j]); int a; t >> a; if (a) { V b = build(t, a); ::new (mem[j]) V(b); live[j] = true; } if (valmode == 2) valn = 0; }
            o.s("{\"cfg\":\""); o.s(TREE_NAME); o.s("\",\"id\":"); o.i(id); o.s(",\"k\":"); o.i(line[0] == 'S' ? k : 0); o.s(",\"steps\":["); o.done();
            o.s("{\"o\":\"init\""); observe(); o.done();
            bool fired = false;
            for (size_t i = 0; i < ops.size(); ++i) {
                Op op = ops[i];
                if (line[0] == 'S') op.k = k;
                if (!enabled(op)) { if (line[0] == 'S') std::_Exit(9); continue; }
                const char* r = perform(op);
                fired = st().fired != 0;
                put_op(op, r); observe(); o.done();
            }
            st().cur = "teardown";
            for (int j = 1; j <= NSLOT; ++j) if (live[j]) { S(j).~V(); live[j] = false; }
            digest();
            o.s(",{\"o\":\"end\",\"alive\":"); o.i((long)alive->size()); o.s(",\"err\":"); o.i(errs); o.s(",\"out\":"); o.i(st().outstanding); o.s("}]}\n");
            alarm(0); scenario_done();
            if (line[0] != 'S' || (k > 0 && !fired)) break;
        }
    }
    sink_flush();
    return 0;
}
