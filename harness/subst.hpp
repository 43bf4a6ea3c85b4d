// Driver for recursive_variant_ substitution (Substitute.tla)
#define VH_MAIN
#include "track.hpp"
#include <vector>
#include <tuple>
#include <boost/variant.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/variant/recursive_variant.hpp>
using namespace vh;
namespace su {
template <class A, class B, class C> struct tup { A a; B b; C c; tup() : a(), b(), c() {} };
template <class A, class B> struct pr { A a; B b; pr() : a(), b() {} };
template <class A> struct vec { A* p; vec() : p(0) {} };
typedef boost::recursive_variant_ rec;
template <class R> struct fn0 { typedef R (*type)(); };
template <class V, class T> struct Nm { static void put(Out& o) { o.s("[\"other\"]"); } };
template <class V> struct Nm<V, V> { static void put(Out& o) { o.s("[\"V\"]"); } };
template <class V> struct Nm<V, int> { static void put(Out& o) { o.s("[\"int\"]"); } };
template <class V> struct Nm<V, rec> { static void put(Out& o) { o.s("[\"rec\"]"); } };
template <class V> inline void args(Out&) {}
template <class V, class H, class... R> inline void args2(Out& o) { o.s(","); Nm<V, H>::put(o); }
template <class V, class... A> struct Args { static void put(Out&) {} };
template <class V, class H, class... A> struct Args<V, H, A...> { static void put(Out& o) { o.s(","); Nm<V, H>::put(o); Args<V, A...>::put(o); } };
template <class V, class T> struct Nm<V, T*> { static void put(Out& o) { o.s("[\"ptr\""); Args<V, T>::put(o); o.s("]"); } };
template <class V, class T> struct Nm<V, const T*> { static void put(Out& o) { o.s("[\"cptr\""); Args<V, T>::put(o); o.s("]"); } };
template <class V, class T> struct Nm<V, T&> { static void put(Out& o) { o.s("[\"ref\""); Args<V, T>::put(o); o.s("]"); } };
template <class V, class T> struct Nm<V, const T&> { static void put(Out& o) { o.s("[\"cref\""); Args<V, T>::put(o); o.s("]"); } };
template <class V, class T> struct Nm<V, vec<T> > { static void put(Out& o) { o.s("[\"vec\""); Args<V, T>::put(o); o.s("]"); } };
template <class V, class A, class B> struct Nm<V, pr<A, B> > { static void put(Out& o) { o.s("[\"pair\""); Args<V, A, B>::put(o); o.s("]"); } };
template <class V, class A, class B, class C> struct Nm<V, tup<A, B, C> > { static void put(Out& o) { o.s("[\"tup\""); Args<V, A, B, C>::put(o); o.s("]"); } };
template <class V, class R, class... A> struct Nm<V, R (*)(A...)> { static void put(Out& o) { o.s("[\"fn"); o.i(sizeof...(A)); o.s("\""); Args<V, R, A...>::put(o); o.s("]"); } };
template <class V> struct Name : boost::static_visitor<const void*> {
    template <class T> const void* operator()(const T& t) const { Nm<V, T>::put(out()); return std::addressof(t); }
    const void* operator()(const long& t) const { out().s("[\"long\"]"); return &t; }
};
struct Addr : boost::static_visitor<const void*> { template <class T> const void* operator()(const T& t) const { return std::addressof(t); } };
static int id = 0;
template <class V, class T> void go(const char* t, const char* form) {
    reset(); out().clear(); st().cur = "sub"; alarm(30); Out& o = out();
    o.s("{\"cfg\":\"subst\",\"id\":"); o.i(id++); o.s(",\"steps\":["); o.done();
    { T x = T(); arm(0); st().in_call = true; V v(x); disarm(); int na = st().nalloc; const V& cv = v; V w(cv);
      o.s("{\"o\":\"sub\",\"t\":"); o.s(t); o.s(",\"form\":\""); o.s(form); o.s("\",\"seen\":"); const void* p = boost::apply_visitor(Name<V>(), cv);
      o.s(",\"w\":"); o.i(cv.which()); o.s(",\"got\":"); const T* g = boost::strict_get<T>(&cv); o.i(g && (const void*)g == p && boost::apply_visitor(Addr(), cv) == p);
      o.s(",\"copy\":"); o.i(w.which() == cv.which() && boost::strict_get<T>(&w) && boost::strict_get<T>(&w) != g); o.s(",\"na\":"); o.i(na); o.s("}"); o.done(); }
    alarm(0); o.s("]}\n"); scenario_done();
}
}
