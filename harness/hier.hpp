// Driver for get on related alternatives (Hierarchy.tla). The generated code calls LIST and the query macros.
#include "track.hpp"
#include <type_traits>
#include <boost/variant.hpp>
#include <boost/variant/polymorphic_get.hpp>
using namespace vh;
namespace hi {
struct A { int mark; explicit A(int m) : mark(m) {} };
struct B : A { int b; explicit B(int m) : A(m), b(1) {} };
struct E : B { explicit E(int m) : B(m) {} };
struct Z { int z; int mark; explicit Z(int m) : z(3), mark(m) {} };
struct C : Z, A { explicit C(int m) : Z(m), A(m) {} };
struct D : virtual A { int d; explicit D(int m) : A(m), d(2) {} };
struct P { virtual ~P() {} int mark; explicit P(int m) : mark(m) {} };
struct Q : P { explicit Q(int m) : P(m) {} };
struct U { int mark; explicit U(int m) : mark(m) {} };
inline int mark(const A& x) { return x.mark; } inline int mark(const Z& x) { return x.mark; } inline int mark(const C& x) { return x.Z::mark == x.A::mark ? x.A::mark : -1; }
inline int mark(const P& x) { return x.mark; } inline int mark(const U& x) { return x.mark; }
struct Mark : boost::static_visitor<int> { template <class T> int operator()(const T& x) const { return mark(x); } };
// the address a pointer to W designating the content would have
template <class W> struct Exp : boost::static_visitor<const void*> {
    template <class T> typename std::enable_if<std::is_base_of<W, T>::value, const void*>::type operator()(const T& t) const { const W& w = t; return std::addressof(w); }
    template <class T> typename std::enable_if<!std::is_base_of<W, T>::value, const void*>::type operator()(const T&) const { return 0; }
};
template <class R> struct Ct { static const int v = 0; };
template <class T> struct Ct<const T&> { static const int v = 1; }; template <class T> struct Ct<T&> { static const int v = 0; };
template <class T> struct Ct<T&&> { static const int v = 2; }; template <class T> struct Ct<const T&&> { static const int v = 3; };
template <class T> struct Ct<T*> { static const int v = 0; }; template <class T> struct Ct<const T*> { static const int v = 1; };
static int id = 0, same, cat; static const char* r; static bool first; static const void* seen; static const void* want;
template <class R> void gotp(R p) { cat = Ct<R>::v; r = p ? "ok" : "null"; seen = (const void*)p; }
template <class R> void gotr(R x) { cat = Ct<R>::v; r = "ok"; seen = (const void*)std::addressof(x); }
inline void begin(const char* l, int cur) {
    reset(); out().clear(); first = true; st().cur = "hget";
    out().s("{\"cfg\":\"hier\",\"id\":"); out().i(id++); out().s(",\"l\":"); out().s(l); out().s(",\"cur\":"); out().i(cur); out().s(",\"steps\":["); out().done(); alarm(60);
}
inline void rec(const char* fn, const char* op, const char* u, int uc) {
    Out& o = out(); if (!first) o.s(","); first = false;
    o.s("{\"o\":\"hget\",\"fn\":\""); o.s(fn); o.s("\",\"op\":\""); o.s(op); o.s("\",\"u\":\""); o.s(u); o.s("\",\"uc\":"); o.i(uc); o.s(",\"r\":\""); o.s(r);
    o.s("\",\"same\":"); o.i(seen && seen == want); o.s(",\"cat\":"); o.i(cat); o.s("}"); o.done();
}
template <class V> void finish(const V& v) {
    Out& o = out(); o.s(first ? "" : ","); o.s("{\"o\":\"end\",\"which\":"); o.i(v.which()); o.s(",\"mark\":"); o.i(boost::apply_visitor(Mark(), v)); o.s("}]}\n"); alarm(0); scenario_done();
}
#define HTRY(stmt, fn, op, W, un, uc) do { r = "other"; seen = 0; cat = -1; want = boost::apply_visitor(Exp<W>(), cv); \
    try { stmt; } catch (boost::bad_polymorphic_get&) { r = "bad_polymorphic_get"; } catch (boost::bad_get&) { r = "bad_get"; } catch (...) {} rec(fn, op, un, uc); } while (0)
#define PQ(fn, op, expr, W, K, un, uc) HTRY(gotp(boost::fn<K W>(expr)), #fn, op, W, un, uc);
#define RQ(fn, op, expr, W, K, un, uc) HTRY(gotr<decltype(boost::fn<K W>(expr))>(boost::fn<K W>(expr)), #fn, op, W, un, uc);
}
