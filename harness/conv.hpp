// Driver for converting construction and assignment (Conversion.tla). The generated main calls arg<>() and foreign<>().
#include "track.hpp"
#include <string>
#include <type_traits>
#include <boost/variant.hpp>
using namespace vh;
namespace cv {
static int nconv = 0;                                     // conversions into X and Z
enum e_t { e0 = 0, e7 = 7 };
struct Bs { int id; }; struct Dv : Bs {};
struct X { int v; X() : v(0) {} X(int i) : v(i) { ++nconv; } };
struct Y { int v; explicit Y() : v(7) {} operator int() const { return v; } };
struct Z { std::string v; Z() {} Z(std::string s) : v(s) { ++nconv; } };
typedef boost::variant<int, std::string> N_t;
typedef bool b; typedef char c; typedef short s; typedef int i; typedef unsigned u; typedef long l; typedef float f; typedef double d;
typedef const char* P; typedef std::string S; typedef e_t e; typedef Bs* B; typedef Dv* D; typedef N_t N;
struct A {};                                              // stands for a char array
static Dv the_object;
static const char the_text[] = "7";

template <class T, class = void> struct mk { static T get() { return T(7); } };
template <> struct mk<bool> { static bool get() { return true; } };
template <> struct mk<P> { static P get() { return the_text; } };
template <> struct mk<S> { static S get() { return "7"; } };
template <> struct mk<e> { static e get() { return e7; } };
template <> struct mk<B> { static B get() { return &the_object; } };
template <> struct mk<D> { static D get() { return &the_object; } };
template <> struct mk<Y> { static Y get() { return Y(); } };
template <> struct mk<Z> { static Z get() { Z z; z.v = "7"; return z; } };
template <> struct mk<X> { static X get() { X x; x.v = 7; return x; } };
template <> struct mk<N> { static N get() { return N(7); } };

inline long val(bool x) { return x ? 1 : 0; }
inline long val(char x) { return x; } inline long val(short x) { return x; } inline long val(int x) { return x; }
inline long val(unsigned x) { return x; } inline long val(long x) { return x; } inline long val(float x) { return (long)x; } inline long val(double x) { return (long)x; }
inline long val(P x) { return x == the_text ? 7 : x && x[0] == '7' && !x[1] ? 7 : -2; }
inline long val(const S& x) { return x == "7" ? 7 : x.empty() ? -1 : -2; }
inline long val(e x) { return x; }
inline long val(B x) { return x == &the_object ? x->id : -2; } inline long val(D x) { return x == &the_object ? x->id : -2; }
inline long val(const X& x) { return x.v; } inline long val(const Y& x) { return x.v; } inline long val(const Z& x) { return val(x.v); }
inline long val(const N& x) { return x.which() == 0 ? val(*boost::relaxed_get<int>(&x)) : x.which() == 1 ? val(*boost::relaxed_get<S>(&x)) : -3; }
template <class T> inline int inner(const T&) { return 0; }
inline int inner(const N& x) { return x.which() + 1; }

// what the compiler chooses among functions taking the bounded types
template <int K, class... Ts> struct Pick { static void pick(); };
template <int K, class T, class... Ts> struct Pick<K, T, Ts...> : Pick<K + 1, Ts...> {
    using Pick<K + 1, Ts...>::pick;
    static std::integral_constant<int, K> pick(T);
};
template <class... Ts> struct L { static const char* name; };
template <class T> struct unwrap { typedef T type; };
template <class T> struct unwrap<boost::recursive_wrapper<T> > { typedef T type; };

struct Seen { long v; int in; };
struct Reader : boost::static_visitor<Seen> { template <class T> Seen operator()(const T& x) const { Seen s = { val(x), inner(x) }; return s; } };

static int id = 0;
static const char* lname = ""; static const char* an = "";
static bool first = true;
inline void begin(const char* l, const char* a) {
    reset(); out().clear(); first = true; lname = l; an = a; st().cur = "conv";
    out().s("{\"cfg\":\"conv\",\"id\":"); out().i(id++); out().s(",\"steps\":["); out().done();
    alarm(60);
}
template <class V> void rec(const V& v, int w, int h, int f, int n, int ref, long sv) {
    Out& o = out();
    if (!first) o.s(","); first = false;
    Seen x = { -9, 0 };
    if (w >= 0) x = boost::apply_visitor(Reader(), v);
    o.s("{\"o\":\"conv\",\"l\":["); o.s(lname); o.s("],\"a\":\""); o.s(an); o.s("\",\"h\":"); o.i(h); o.s(",\"f\":"); o.i(f); o.s(",\"w\":"); o.i(w + 1);
    o.s(",\"v\":"); o.i(x.v); o.s(",\"inner\":"); o.i(x.in); o.s(",\"n\":"); o.i(n); o.s(",\"ref\":"); o.i(ref); o.s(",\"sv\":"); o.i(sv); o.s(",\"r\":\"ok\"}");
    o.done();
}
inline void end() { alarm(0); out().s("]}\n"); scenario_done(); }

template <class V, class... Ts> struct Holders {
    typedef void (*F)(V&);
    template <class T> static void put(V& v) { v = V(mk<T>::get()); }
    static F at(int k) { static const F t[] = { &Holders::template put<Ts>... }; return t[k]; }
};

template <class LL, class AA> struct Run;
template <class... Ts, class AA> struct Run<L<Ts...>, AA> {
    typedef boost::variant<Ts...> V;
    typedef Holders<V, typename unwrap<Ts>::type...> H;
    template <class Src> static int ref(Src&& x) { return decltype(Pick<1, typename unwrap<Ts>::type...>::pick(std::forward<Src>(x)))::value; }
    template <class Src> static void ctor(AA& a, Src&& x, int f) {
        nconv = 0; V v(std::forward<Src>(x)); rec(v, v.which(), 0, f, nconv, decltype(Pick<1, typename unwrap<Ts>::type...>::pick(std::declval<Src>()))::value, val(a));
    }
    template <class Src> static void as(AA& a, Src&& x, int f, int h) {
        V v(mk<typename unwrap<AA>::type>::get()); H::at(h)(v);
        if (v.which() != h) { rec(v, -1, h + 1, f, 0, 0, 0); return; }
        nconv = 0; v = std::forward<Src>(x); rec(v, v.which(), h + 1, f, nconv, decltype(Pick<1, typename unwrap<Ts>::type...>::pick(std::declval<Src>()))::value, val(a));
    }
    static void go(const char* l, const char* a) {
        begin(l, a);
        { AA x = mk<AA>::get(); ctor<AA&>(x, x, 0); }
        { AA x = mk<AA>::get(); ctor<const AA&>(x, x, 1); }
        { AA x = mk<AA>::get(); ctor<AA>(x, std::move(x), 2); }
        for (int h = 0; h < (int)sizeof...(Ts); ++h) {
            { AA x = mk<AA>::get(); as<AA&>(x, x, 0, h); }
            { AA x = mk<AA>::get(); as<const AA&>(x, x, 1, h); }
            { AA x = mk<AA>::get(); as<AA>(x, std::move(x), 2, h); }
        }
        end();
    }
};
template <class... Ts> struct Run<L<Ts...>, A> {
    typedef boost::variant<Ts...> V;
    typedef Holders<V, typename unwrap<Ts>::type...> H;
    static void go(const char* l, const char* a) {
        typedef decltype(Pick<1, typename unwrap<Ts>::type...>::pick(the_text)) R;
        begin(l, a);
        { nconv = 0; V v(the_text); rec(v, v.which(), 0, 1, nconv, R::value, 7); }
        for (int h = 0; h < (int)sizeof...(Ts); ++h) {
            V v(the_text); H::at(h)(v);
            if (v.which() != h) { rec(v, -1, h + 1, 1, 0, 0, 0); continue; }
            nconv = 0; v = the_text; rec(v, v.which(), h + 1, 1, nconv, R::value, 7);
        }
        end();
    }
};
// a foreign variant over A1, A2 as the source; it holds AA
template <class LL, class AA, class FV> struct For;
template <class... Ts, class AA, class FV> struct For<L<Ts...>, AA, FV> {
    typedef boost::variant<Ts...> V;
    typedef Holders<V, typename unwrap<Ts>::type...> H;
    typedef decltype(Pick<1, typename unwrap<Ts>::type...>::pick(std::declval<const AA&>())) R;
    static long sval(const FV& f) { return boost::apply_visitor(Reader(), f).v; }
    template <class Src> static void ctor(FV& a, Src&& x, int f) { nconv = 0; V v(std::forward<Src>(x)); int n = nconv; rec(v, v.which(), 0, f, n, R::value, sval(a)); }
    template <class Src> static void as(FV& a, Src&& x, int f, int h) {
        V v(a); H::at(h)(v);
        if (v.which() != h) { rec(v, -1, h + 1, f, 0, 0, 0); return; }
        nconv = 0; v = std::forward<Src>(x); int n = nconv; rec(v, v.which(), h + 1, f, n, R::value, sval(a));
    }
    static void go(const char* l, const char* a) {
        begin(l, a);
        { FV x(mk<AA>::get()); ctor<FV&>(x, x, 10); }
        { FV x(mk<AA>::get()); ctor<const FV&>(x, x, 11); }
        { FV x(mk<AA>::get()); ctor<FV>(x, std::move(x), 12); }
        for (int h = 0; h < (int)sizeof...(Ts); ++h) {
            { FV x(mk<AA>::get()); as<FV&>(x, x, 10, h); }
            { FV x(mk<AA>::get()); as<const FV&>(x, x, 11, h); }
            { FV x(mk<AA>::get()); as<FV>(x, std::move(x), 12, h); }
        }
        end();
    }
};
}
