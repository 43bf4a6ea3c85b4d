// Driver for variants with reference alternatives (RefVariant.tla).   usage: ref SCRIPT [first-line]
// script line: op;op;...   op: name d s k c x
#define VH_MAIN
#include "track.hpp"
#include <boost/variant.hpp>
#include <boost/variant/polymorphic_get.hpp>
#include <boost/variant/multivisitors.hpp>
#include <fstream>
#include <sstream>
#include <string>
#include <typeinfo>
using namespace vh;
typedef REF_ELEM<1> T1;
typedef REF_ELEM<2> T2;
struct Der : T1 { int more; explicit Der(Val v) : T1(v), more(5) {} };

template <int K> struct KT;
template <> struct KT<1> { typedef boost::variant<T1&, T2&> V; };
template <> struct KT<2> { typedef boost::variant<T2&, T1&> V; };
template <> struct KT<3> { typedef boost::variant<const T1&, T2&> V; };
template <> struct KT<4> { typedef boost::variant<T1&, T2> V; };
template <> struct KT<5> { typedef boost::variant<T1, T2> V; };
template <> struct KT<6> { typedef boost::variant<const T2&, const T1&> V; };
template <> struct KT<7> { typedef boost::variant<T1&> V; };
#define EACH_KIND(X) X(1) X(2) X(3) X(4) X(5) X(6) X(7)

const int NSLOT = 3;
struct Slot { int k; alignas(64) unsigned char mem[512]; };
static Slot slot[NSLOT + 1];
template <int K> typename KT<K>::V& at(int j) { return *reinterpret_cast<typename KT<K>::V*>(slot[j].mem); }

static T1* o1; static T1* o2; static T2* o3; static Der* o4;
static const void *o1_a, *o2_a, *o3_a, *o4_a;         // addresses of the Base parts
static int oid(const void* p) {
    if (!p) return 0;
    if (p == o1_a) return 1;
    if (p == o2_a) return 2;
    if (p == o3_a) return 3;
    if (p == o4_a) return 4;
    for (int j = 1; j <= NSLOT; ++j) if (p >= (void*)slot[j].mem && p < (void*)(slot[j].mem + sizeof slot[j].mem)) return 10 + j;
    return 20;
}
template <int Tag> const void* ad(const Base<Tag>& t) { return static_cast<const void*>(&t); }
template <class T> int idp(T* p) { return p ? oid(ad(*p)) : 0; }

struct Addr : boost::static_visitor<int> { template <class T> int operator()(T& t) const { return oid(ad(t)); } };
struct AddrR : boost::static_visitor<int> {     // accepts lvalues and rvalues
    template <class T> int operator()(T&& t) const { return oid(ad(t)); } };
struct Addr2 : boost::static_visitor<int> { template <class T, class U> int operator()(T& t, U& u) const { return oid(ad(t)) * 100 + oid(ad(u)); } };
struct Write : boost::static_visitor<> { int x; explicit Write(int v) : x(v) {}
    template <class T> void operator()(T& t) const { t.val = x; } template <class T> void operator()(const T&) const {} };
struct ReadV : boost::static_visitor<int> { template <class T> int operator()(const T& t) const { return t.good() ? t.val : -99; } };
struct TypeV : boost::static_visitor<int> { const std::type_info& ti; explicit TypeV(const std::type_info& t) : ti(t) {}
    template <class T> int operator()(const T&) const { return ti == typeid(T) ? T::tag : 0; } };

template <class T> struct Other { typedef T2 type; };
template <> struct Other<T2> { typedef T1 type; };
template <> struct Other<const T2> { typedef T1 type; };
template <class V> struct Gets : boost::static_visitor<> {
    V* v; int* r; Gets(V* p, int* q) : v(p), r(q) {}
    template <class T> void operator()(T&) const {
        r[0] = idp(boost::get<T>(v));
        r[1] = idp(boost::get<T>(const_cast<const V*>(v)));
        r[2] = idp(std::addressof(boost::get<T>(*v)));
        r[3] = idp(std::addressof(boost::strict_get<T>(*const_cast<const V*>(v))));
        r[4] = idp(boost::polymorphic_get<T>(v));
        r[5] = idp(boost::relaxed_get<typename Other<T>::type>(v));
    }
};
template <class V> struct PutG : boost::static_visitor<> {      // write through get
    V* v; int x, how; PutG(V* p, int y, int h) : v(p), x(y), how(h) {}
    template <class T> void operator()(T&) const { if (how == 1) boost::get<T>(*v).val = x; else if (how == 2) boost::get<T>(v)->val = x; else boost::strict_get<T>(v)->val = x; }
    template <class T> void operator()(const T&) const {}
};

struct O { char o[8]; int d, s, k, c, x; };
static bool run1(const O& op);

template <int KD, int KS> void cv(const O& op, std::true_type, std::true_type) {
    if (op.c == 0) ::new (slot[op.d].mem) typename KT<KD>::V(at<KS>(op.s)); else ::new (slot[op.d].mem) typename KT<KD>::V(const_cast<const typename KT<KS>::V&>(at<KS>(op.s)));
}
template <int KD, int KS> void cv(const O& op, std::true_type, std::false_type) { ::new (slot[op.d].mem) typename KT<KD>::V(at<KS>(op.s)); }
template <int KD, int KS, class X> void cv(const O&, std::false_type, X) { std::_Exit(9); }
template <int KD, int KS, int C> struct Can : std::false_type {};
#define CAN(A, B, C) template <> struct Can<B, A, C> : std::true_type {};
#include REF_CONV        // CAN(source kind, destination kind, const)

template <int K, class T> void mk(int d, T& ob, std::true_type) { ::new (slot[d].mem) typename KT<K>::V(ob); }
template <int K, class T> void mk(int, T&, std::false_type) { std::_Exit(9); }
template <int K> struct HasT2 : std::integral_constant<bool, K != 7> {};
template <int K> struct CT1 : std::integral_constant<bool, K == 3 || K == 5 || K == 6> {};
template <int K> struct CT2 : std::integral_constant<bool, K == 4 || K == 5 || K == 6> {};
template <int K> void mkk(const O& op) {
    if (op.c == 0) switch (op.s) {
        case 1: mk<K>(op.d, *o1, std::true_type()); break; case 2: mk<K>(op.d, *o2, std::true_type()); break;
        case 3: mk<K>(op.d, *o3, HasT2<K>()); break; default: mk<K>(op.d, *o4, std::true_type());
    } else switch (op.s) {
        case 1: mk<K>(op.d, const_cast<const T1&>(*o1), CT1<K>()); break; case 2: mk<K>(op.d, const_cast<const T1&>(*o2), CT1<K>()); break;
        case 3: mk<K>(op.d, const_cast<const T2&>(*o3), CT2<K>()); break; default: mk<K>(op.d, const_cast<const Der&>(*o4), CT1<K>());
    }
}
template <int KS> void cvs(const O& op) {
    switch (op.k) {
#define X(K) case K: cv<K, KS>(op, Can<K, KS, 0>(), Can<K, KS, 1>()); break;
        EACH_KIND(X)
#undef X
    }
}
template <int KS> void avs(const O& op, std::true_type) { if (op.c == 0) at<5>(op.d) = at<KS>(op.s); else at<5>(op.d) = const_cast<const typename KT<KS>::V&>(at<KS>(op.s)); }
template <int KS> void avs(const O&, std::false_type) { std::_Exit(9); }
template <int K> void cp(const O& op) {
    typedef typename KT<K>::V V;
    if (op.c == 0) ::new (slot[op.d].mem) V(at<K>(op.s));
    else if (op.c == 1) ::new (slot[op.d].mem) V(const_cast<const V&>(at<K>(op.s)));
    else ::new (slot[op.d].mem) V(std::move(at<K>(op.s)));
}
template <int K> void wr(const O& op) {
    typedef typename KT<K>::V V;
    V& v = at<K>(op.d);
    if (op.c == 0) { Write w(op.x); boost::apply_visitor(w, v); } else { PutG<V> p(&v, op.x, op.c); boost::apply_visitor(p, v); }
}
static bool run1(const O& op) {
    std::string n(op.o);
#define SW(E) { switch (E) {
#define SWE } }
    int ks = op.s >= 1 && op.s <= NSLOT ? slot[op.s].k : 0, kd = op.d >= 1 && op.d <= NSLOT ? slot[op.d].k : 0;
    if (n == "mk") { switch (op.k) {
#define X(K) case K: mkk<K>(op); break;
        EACH_KIND(X)
#undef X
        } slot[op.d].k = op.k; }
    else if (n == "cp") { switch (ks) {
#define X(K) case K: cp<K>(op); break;
        EACH_KIND(X)
#undef X
        } slot[op.d].k = ks; }
    else if (n == "cv") { switch (ks) {
#define X(K) case K: cvs<K>(op); break;
        EACH_KIND(X)
#undef X
        } slot[op.d].k = op.k; }
    else if (n == "av") { switch (ks) {
#define X(K) case K: avs<K>(op, std::integral_constant<bool, (K != 5)>()); break;
        EACH_KIND(X)
#undef X
        } }
    else if (n == "dt") { switch (kd) {
#define X(K) case K: { typedef KT<K>::V V; at<K>(op.d).~V(); } break;
        EACH_KIND(X)
#undef X
        } slot[op.d].k = 0; }
    else if (n == "wr") { switch (kd) {
#define X(K) case K: wr<K>(op); break;
        EACH_KIND(X)
#undef X
        } }
    else if (n == "wo") { int x = op.x; switch (op.d) { case 1: o1->val = x; break; case 2: o2->val = x; break; case 3: o3->val = x; break; default: o4->val = x; } }
    else std::_Exit(9);
    return true;
}
#if __cplusplus >= 201402L
template <class V> int lam(V& v) { return boost::apply_visitor([](auto& t) -> int { return oid(ad(t)); }, v); }
#else
template <class V> int lam(V& v) { Addr a; auto d = boost::apply_visitor(a); return d(v); }
#endif
static bool firstb;
template <int K> void observe(int j) {
    typedef typename KT<K>::V V;
    V& v = at<K>(j); const V& cv_ = v; Out& o = out();
    int g[6] = { 0, 0, 0, 0, 0, 0 };
    Addr a; AddrR r;
    int va = boost::apply_visitor(a, v), vc = boost::apply_visitor(a, cv_), vl = lam(v), vr = boost::apply_visitor(r, std::move(v));
    Gets<V> gg(&v, g); boost::apply_visitor(gg, v);
    if (!firstb) o.s(","); firstb = false;
    const char* n[] = { "{\"d\":", ",\"w\":", ",\"va\":", ",\"vc\":", ",\"vl\":", ",\"vr\":", ",\"ga\":", ",\"gc\":", ",\"gr\":", ",\"sa\":", ",\"pa\":", ",\"go\":", ",\"x\":", ",\"ty\":" };
    long vals[] = { j, cv_.which() + 1, va, vc, vl, vr, g[0], g[1], g[2], g[3], g[4], g[5], boost::apply_visitor(ReadV(), cv_), boost::apply_visitor(TypeV(cv_.type()), cv_) };
    for (int i = 0; i < 14; ++i) { o.s(n[i]); o.i(vals[i]); }
    o.s("}");
}
static bool firstr;
template <int K> void relate(int j, int m) {
    typedef typename KT<K>::V V;
    V& a = at<K>(j); V& b = at<K>(m); Out& o = out();
    if (!firstr) o.s(","); firstr = false;
    int p = boost::apply_visitor(Addr2(), a, b);
    long vals[] = { j, m, const_cast<const V&>(a) == b ? 1 : 0, const_cast<const V&>(a) < b ? 1 : 0, p / 100, p % 100 };
    o.s("["); for (int i = 0; i < 6; ++i) { if (i) o.s(","); o.i(vals[i]); } o.s("]");
}
int main(int argc, char** argv) {
    install();
    std::ifstream in(argv[1]); int from = argc > 2 ? std::atoi(argv[2]) : 0; std::string line; int id = -1;
    while (std::getline(in, line)) {
        if (++id < from) continue;
        reset(); out().clear();
        alignas(64) static unsigned char m1[256], m2[256], m3[256], m4[256];
        o1 = ::new (m1) T1(Val(101)); o2 = ::new (m2) T1(Val(102)); o3 = ::new (m3) T2(Val(103)); o4 = ::new (m4) Der(Val(104));
        o1_a = ad(*o1); o2_a = ad(*o2); o3_a = ad(*o3); o4_a = ad(*o4);
        for (int j = 1; j <= NSLOT; ++j) slot[j].k = 0;
        Out& o = out();
        o.s("{\"cfg\":\"" REF_NAME "\",\"id\":"); o.i(id); o.s(",\"steps\":["); o.done(); alarm(60);
        std::istringstream ls(line); std::string t; bool f = true;
        while (std::getline(ls, t, ';')) {
            O op; if (std::sscanf(t.c_str(), "%7s %d %d %d %d %d", op.o, &op.d, &op.s, &op.k, &op.c, &op.x) != 6) std::_Exit(9);
            st().nev = 0; st().cur = "call"; std::strncpy(st().last, op.o, 7);
            long al0;
            arm(0); al0 = st().nalloc; run1(op); al0 = st().nalloc - al0; disarm();
            if (!f) o.s(","); f = false;
            o.s("{\"o\":\""); o.s(op.o); o.s("\""); const char* fn[] = { ",\"d\":", ",\"s\":", ",\"k\":", ",\"c\":", ",\"x\":", ",\"al\":" }; long fv[] = { op.d, op.s, op.k, op.c, op.x, al0 };
            for (int i = 0; i < 6; ++i) { o.s(fn[i]); o.i(fv[i]); }
            o.s(",\"ev\":[");
            int ne = st().nev;
            for (int i = 0; i < ne; ++i) { State::Ev& e = st().ev[i]; if (i) o.s(","); char k[2] = { e.k, 0 }; o.s("[\""); o.s(k); o.s("\","); o.i(e.a ? oid(st().addr[e.a - 1]) : 0); o.s(","); o.i(e.src ? oid(st().addr[e.src - 1]) : 0); o.s("]"); }
            o.s("],\"obs\":["); st().cur = "observe"; firstb = true;
            for (int j = 1; j <= NSLOT; ++j) switch (slot[j].k) {
#define X(K) case K: observe<K>(j); break;
                EACH_KIND(X)
#undef X
            }
            o.s("],\"rel\":["); firstr = true;
            for (int j = 1; j <= NSLOT; ++j) for (int m = 1; m <= NSLOT; ++m) if (slot[j].k && slot[j].k == slot[m].k) switch (slot[j].k) {
#define X(K) case K: relate<K>(j, m); break;
                EACH_KIND(X)
#undef X
            }
            o.s("],\"ob\":[");
            o.s("["); o.i(o1->val); o.s(","); o.i(o1->good()); o.s("],["); o.i(o2->val); o.s(","); o.i(o2->good()); o.s("],["); o.i(o3->val); o.s(","); o.i(o3->good()); o.s("],["); o.i(o4->val); o.s(","); o.i(o4->good() && o4->more == 5); o.s("]]}");
            o.done();
        }
        alarm(0); o.s("]}\n"); scenario_done();
    }
    sink_flush();
    return 0;
}
