// Driver for visitor_ptr (FunctionVisitor.tla)
#define VH_MAIN
#include "track.hpp"
#include <string>
#include <boost/variant.hpp>
using namespace vh;
namespace fv {
struct base { int x; explicit base(int v = 0) : x(v) {} bool operator==(const base& o) const { return x == o.x; } };
struct derived : base { explicit derived(int v = 0) : base(v) {} };
struct fromint { int x; fromint(int v = 0) : x(v) {} bool operator==(const fromint& o) const { return x == o.x; } };
struct toint { int x; explicit toint(Val v = Val(0)) : x(v.v) {} operator int() const { return x; } operator base() const { return base(x); } bool operator==(const toint& o) const { return x == o.x; } };
struct other { int x; template <class T> other(const T&) : x(0) {} bool operator==(const other&) const { return true; } };
struct mo { int v; explicit mo(int x) : v(x) {} mo(mo&& o) : v(o.v) { o.v = -1; } };
typedef boost::variant<int, derived, short, boost::recursive_wrapper<base>, long, std::string, double, char, fromint, bool, toint, const char*> VA;
typedef boost::variant<const char*, toint, base, bool, std::string, fromint, derived, char, double, boost::recursive_wrapper<long>, short, int> VB;
template <class T> struct N;
#define NM(T, S) template <> struct N<T> { static const char* n() { return S; } };
NM(int, "int") NM(short, "short") NM(long, "long") NM(double, "double") NM(char, "char") NM(bool, "bool") NM(base, "base") NM(derived, "derived") NM(fromint, "fromint")
NM(toint, "toint") NM(std::string, "string") NM(const char*, "cptr") NM(float, "float") NM(unsigned, "unsigned") NM(other, "other")
static const char* const text = "seven";
template <class T> struct Mk { static T go() { return T(1); } };
template <> struct Mk<toint> { static toint go() { return toint(Val(1)); } };
template <> struct Mk<std::string> { static std::string go() { return text; } };
template <> struct Mk<const char*> { static const char* go() { return text; } };

static int nc, throws, cell; static const void* seen; static std::string rendered;   // what the function was given
struct Boom {};
template <class T> struct Eq { static bool one(const T& t) { return t == Mk<T>::go(); } };
static bool val_ok;
template <class T> void in(const T& t) { ++nc; seen = std::addressof(t); val_ok = Eq<T>::one(t); if (throws) throw Boom(); }
template <class R> struct Res;
template <> struct Res<int> { static int go() { return 42; } static bool ok(int x) { return x == 42; } };
template <> struct Res<int&> { static int& go() { return cell; } static bool ok(int& x) { return &x == &cell; } };
template <> struct Res<mo> { static mo go() { return mo(43); } static bool ok(mo&& m) { return m.v == 43; } };
template <class R, class P, class T> R fn(P p) { in<T>(p); return Res<R>::go(); }
template <class P, class T> void vfn(P p) { in<T>(p); }
template <class R> struct Go {
    template <class P, class T, class V> static bool call(V&& v) { return Res<R>::ok(boost::apply_visitor(boost::visitor_ptr(&fn<R, P, T>), std::forward<V>(v))); }
};
template <> struct Go<void> {
    template <class P, class T, class V> static bool call(V&& v) { const boost::visitor_ptr_t<P, void> p(&vfn<P, T>); boost::apply_visitor(p, std::forward<V>(v)); return true; }
};
struct Addr : boost::static_visitor<const void*> { template <class T> const void* operator()(const T& t) const { return std::addressof(t); } };
template <class C> struct Same : boost::static_visitor<bool> { bool operator()(const C& c) const { return Eq<C>::one(c); } template <class T> bool operator()(const T&) const { return false; } };
static int id = 0; static bool first;
template <class V, class C, class T, class P, class R> void one(const char* p, const char* r, int var, int th) {
    V v(Mk<C>::go()); const V& cv = v; const void* a = boost::apply_visitor(Addr(), cv); const int w = v.which();
    nc = 0; throws = th; seen = 0; val_ok = false; bool back = false; const char* res = "ok";
    try { back = var == 0 ? Go<R>::template call<P, T>(v) : var == 1 ? Go<R>::template call<P, T>(cv) : Go<R>::template call<P, T>(std::move(v)); }
    catch (Boom&) { res = "fault"; } catch (boost::bad_visit&) { res = "bad_visit"; } catch (...) { res = "other"; }
    Out& o = out(); if (!first) o.s(","); first = false;
    o.s("{\"o\":\"fnv\",\"c\":\""); o.s(N<C>::n()); o.s("\",\"t\":\""); o.s(N<T>::n()); o.s("\",\"p\":\""); o.s(p); o.s("\",\"r\":\""); o.s(r);
    o.s("\",\"v\":\""); o.s(var == 0 ? "lv" : var == 1 ? "clv" : "rv"); o.s("\",\"th\":"); o.i(th); o.s(",\"nc\":"); o.i(nc); o.s(",\"va\":"); o.i(val_ok);
    o.s(",\"ad\":"); o.i(seen == a); o.s(",\"res\":\""); o.s(res); o.s("\",\"back\":"); o.i(back);
    o.s(",\"w\":"); o.i(v.which() == w && boost::apply_visitor(Addr(), cv) == a && boost::apply_visitor(Same<C>(), cv)); o.s("}"); o.done();
}
template <class V, class C, class T, class P> void results(const char* p, int r, int var, int th) {
    switch (r) { case 0: one<V, C, T, P, int>(p, "int", var, th); break; case 1: one<V, C, T, P, void>(p, "void", var, th); break;
                 case 2: one<V, C, T, P, int&>(p, "ref", var, th); break; default: one<V, C, T, P, mo>(p, "move", var, th); }
}
template <class V, class C, class T> void asks(const unsigned char (*q)[4], int n) {      // p r v th
    first = true; reset(); out().clear(); st().cur = "fnv"; alarm(60);
    out().s("{\"cfg\":\"fnv\",\"id\":"); out().i(id++); out().s(",\"steps\":["); out().done();
    for (int i = 0; i < n; ++i)
        switch (q[i][0]) { case 0: results<V, C, T, T>("val", q[i][1], q[i][2], q[i][3]); break; case 1: results<V, C, T, const T&>("cref", q[i][1], q[i][2], q[i][3]); break;
                           default: results<V, C, T, T&>("ref", q[i][1], q[i][2], q[i][3]); }
    alarm(0); out().s("]}\n"); scenario_done();
}
}
