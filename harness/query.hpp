// Queries: visitation, get, comparison, hashing, output, adaptors. Included by core.cpp when a Q_* macro is defined.
// Every query is logged with what the caller sees; spec/VariantQuery.tla judges.
#ifndef VH_QUERY_HPP
#define VH_QUERY_HPP
#include <memory>
#include <sstream>
#include <iomanip>
#include <functional>
#include <set>
#include <boost/variant/multivisitors.hpp>
#include <boost/variant/visitor_ptr.hpp>
#include <boost/functional/hash.hpp>

// ------------------------------------------------------------- log of visitor calls
struct CallLog { int self, vconst, n; struct { int tag, cat; const void* a; int v; } arg[8]; };
static CallLog calls[16]; static int ncalls; static const void* the_visitor; static int ret_token; static int ret_cell; static int res_got, res_same;
template <class T> struct CatOf;                  // of a deduced forwarding parameter
template <class T> struct CatOf { static const int v = std::is_const<T>::value ? 3 : 2; };
template <class T> struct CatOf<T&> { static const int v = std::is_const<T>::value ? 1 : 0; };
template <class T> struct Bare { typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type type; };
// the type handed over by something that is no bounded type (e.g. an internal holder) gets tag -1
template <class T, class = void> struct SafeTag { static const int v = -1; static int val(const T&) { return -1; } static const void* addr(const T& t) { return std::addressof(t); } };
template <class T> struct SafeTag<T, typename std::enable_if<(TagOf<T>::v > 0)>::type> { static const int v = TagOf<T>::v; static int val(const T& t) { return val_of(t); } static const void* addr(const T& t) { return addr_of(t); } };
inline void log_args(CallLog&, int) {}
template <class T, class... R> void log_args(CallLog& c, int i, T&& x, R&&... r) {
    typedef typename Bare<T>::type B;
    c.arg[i].tag = SafeTag<B>::v; c.arg[i].cat = CatOf<T>::v; c.arg[i].a = SafeTag<B>::addr(x); c.arg[i].v = SafeTag<B>::val(x);
    log_args(c, i + 1, std::forward<R>(r)...);
}
template <class... A> void log_call(const void* self, int vconst, A&&... a) {
    if (ncalls < 16) { CallLog& c = calls[ncalls]; c.self = self == the_visitor; c.vconst = vconst; c.n = sizeof...(A); log_args(c, 0, std::forward<A>(a)...); }
    ++ncalls; throw_point();
}
struct MoveOnly { int v; explicit MoveOnly(int x) : v(x) {} MoveOnly(MoveOnly&& o) : v(o.v) { o.v = -5; } MoveOnly& operator=(MoveOnly&&) = delete; MoveOnly(const MoveOnly&) = delete; };
template <class R> struct Give;
template <> struct Give<int> { static int go() { return ret_token; } };
template <> struct Give<void> { static void go() {} };
template <> struct Give<int&> { static int& go() { return ret_cell; } };
template <> struct Give<const int&> { static const int& go() { return ret_cell; } };
template <> struct Give<MoveOnly> { static MoveOnly go() { return MoveOnly(ret_token); } };
// visitor with result_type; PAD makes copies noticeable in address
template <class R> struct Vis {
    typedef R result_type; int state; Vis() : state(0) {} Vis(const Vis& o) : state(o.state + 1) {}
    template <class... A> R operator()(A&&... a) { log_call(this, 0, std::forward<A>(a)...); return Give<R>::go(); }
    template <class... A> R operator()(A&&... a) const { log_call(this, 1, std::forward<A>(a)...); return Give<R>::go(); }
};
// visitor without result_type (C++14 forms)
template <class R> struct Gen {
    int state; Gen() : state(0) {} Gen(const Gen& o) : state(o.state + 1) {}
    template <class... A> R operator()(A&&... a) { log_call(this, 0, std::forward<A>(a)...); return Give<R>::go(); }
    template <class... A> R operator()(A&&... a) const { log_call(this, 1, std::forward<A>(a)...); return Give<R>::go(); }
};
// what the caller receives
inline void got(int x) { res_got = x; res_same = 1; }
inline void got_ref(int& x) { res_got = x; res_same = &x == &ret_cell; }
inline void got_mo(MoveOnly&& m) { res_got = m.v; res_same = 1; }

#if __cplusplus >= 201402L
#define VH_CPP14 1
#else
#define VH_CPP14 0
#endif
#if VH_CPP14
#define IF14(...) __VA_ARGS__
#else
#define IF14(...) result = "skip"
#endif


static void calls_reset() { ncalls = 0; the_visitor = 0; ret_token = 4242; ret_cell = 777; res_got = -1; res_same = 0; }

#define CALL boost::apply_visitor(v, std::forward<W>(w)...)
// every way of writing the visit; forms that do not exist in this language version are skipped
template <class... W> void all_forms(const Op& o, W&&... w) {
    switch (o.x) {
    case 0: { Vis<int> v; the_visitor = &v; GUARD(o.k, got(CALL)); break; }
    case 1: { const Vis<int> v; the_visitor = &v; GUARD(o.k, got(CALL)); break; }
    case 2: { Vis<void> v; the_visitor = &v; res_same = 1; res_got = ret_token; GUARD(o.k, CALL); break; }
    case 3: { Vis<int&> v; the_visitor = &v; GUARD(o.k, got_ref(CALL)); break; }
    case 4: { Vis<MoveOnly> v; the_visitor = &v; GUARD(o.k, got_mo(CALL)); break; }
    case 5: { IF14(Gen<int> v; the_visitor = &v; GUARD(o.k, got(CALL))); break; }
    case 6: { IF14(const Gen<int> v; the_visitor = &v; GUARD(o.k, got(CALL))); break; }
    case 7: { IF14(Gen<int&> v; the_visitor = &v; GUARD(o.k, got_ref(CALL))); break; }
    case 8: { IF14(Gen<void> v; the_visitor = &v; res_same = 1; res_got = ret_token; GUARD(o.k, CALL)); break; }
    case 9: { IF14(auto v = [](auto&&... a) -> int { log_call(the_visitor, 1, std::forward<decltype(a)>(a)...); return ret_token; };
                   the_visitor = &v; GUARD(o.k, got(CALL))); break; }
    default: std::fprintf(stderr, "bad form %d\n", o.x); std::_Exit(9); }
}
template <class... W> void few_forms(const Op& o, W&&... w) {
    switch (o.x) {
    case 1: { const Vis<int> v; the_visitor = &v; GUARD(o.k, got(CALL)); break; }
    case 3: { Vis<int&> v; the_visitor = &v; GUARD(o.k, got_ref(CALL)); break; }
    case 5: { IF14(Gen<int> v; the_visitor = &v; GUARD(o.k, got(CALL))); break; }
    default: std::fprintf(stderr, "bad form %d\n", o.x); std::_Exit(9); }
}
template <class... W> void two_forms(const Op& o, W&&... w) {
    switch (o.x) {
    case 1: { const Vis<int> v; the_visitor = &v; GUARD(o.k, got(CALL)); break; }
    case 5: { IF14(Gen<int> v; the_visitor = &v; GUARD(o.k, got(CALL))); break; }
    default: std::fprintf(stderr, "bad form %d\n", o.x); std::_Exit(9); }
}
#undef CALL

// ------------------------------------------------------------- unary
#ifdef Q_VISIT
template <class V> struct QVisit {
    template <class W> static void one(const Op& o, W&& w) {
        if (o.x == 10) { Vis<int> v; the_visitor = &v; GUARD(o.k, got(std::forward<W>(w).apply_visitor(v))); }
        else if (o.x == 11) { const Vis<int&> v; the_visitor = &v; GUARD(o.k, got_ref(std::forward<W>(w).apply_visitor(v))); }
        else all_forms(o, std::forward<W>(w));
    }
    static void run(const Op& o) {
        V& v = at<V>(o.d); const V& cv = v;
        switch (o.c) { case 0: one(o, v); break; case 1: one(o, cv); break; case 2: one(o, std::move(v)); break; default: one(o, std::move(cv)); }
    }
};
#endif
// ------------------------------------------------------------- binary, ternary, 4-ary
// o.c holds one category per operand: c = c1 + 4*c2 + 16*c3
#ifdef Q_MULTI
template <class V, class... W> void pass2(const Op& o, int i, W&&... w);
template <int C, class V> struct As;
template <class V> struct As<0, V> { typedef V& type; };
template <class V> struct As<1, V> { typedef const V& type; };
template <class V> struct As<2, V> { typedef V&& type; };
template <class V> struct As<3, V> { typedef const V&& type; };
template <class A, class B, int I> struct Bin {
    static void run(const Op& o) {
        if (o.c != I) return Bin<A, B, I - 1>::run(o);
        typedef typename As<I % 4, A>::type PA; typedef typename As<I / 4, B>::type PB;
        A& a = at<A>(o.d); B& b = at<B>(o.s);
        if (I == 0) all_forms(o, a, b); else few_forms(o, static_cast<PA>(a), static_cast<PB>(b));
    }
};
template <class A, class B> struct Bin<A, B, -1> { static void run(const Op&) { std::_Exit(9); } };
#endif
#ifdef Q_TRI
template <class V> void run_tri(const Op& o) {
    V& a = at<V>(o.d); V& b = at<V>(o.s); V& c = at<V>(o.q); const V& ca = a; const V& cb = b; const V& cc = c;
    switch (o.c) {
    case 0: all_forms(o, a, b, c); break;
    case 1 + 4 + 16: few_forms(o, ca, cb, cc); break;
    case 4: few_forms(o, a, cb, c); break;
    case 1 + 16: few_forms(o, ca, b, cc); break;
    case 2 + 8 + 32: few_forms(o, std::move(a), std::move(b), std::move(c)); break;
    case 8: few_forms(o, a, std::move(b), c); break;
    case 2 + 16: few_forms(o, std::move(a), b, cc); break;
    default: std::_Exit(9);
    }
}
template <class V> void run_quad(const Op& o) {
    V& a = at<V>(o.d); V& b = at<V>(o.s); V& c = at<V>(o.q); V& e = at<V>(o.z); const V& ca = a; const V& cb = b; const V& cc = c; const V& ce = e;
    switch (o.c) {
    case 64: few_forms(o, a, b, c, ce); break;
    case 0: two_forms(o, a, b, c, e); break;
    case 1 + 16: two_forms(o, ca, b, cc, e); break;
    case 4 + 64: two_forms(o, a, cb, c, ce); break;
    default: std::_Exit(9);
    }
}
#ifdef TRI_ALL          // three operands in every mixture of categories
template <int C, class V> struct As3;
template <class V> struct As3<0, V> { typedef V& type; };
template <class V> struct As3<1, V> { typedef const V& type; };
template <class V> struct As3<2, V> { typedef V&& type; };
#if TRI_FORM == 1
typedef const Vis<int> TriVis;
#elif TRI_FORM == 5
typedef Gen<int> TriVis;
#else
typedef const Gen<int> TriVis;
#endif
template <class... W> void tri_forms(const Op& o, W&&... w) {
    if (o.x != TRI_FORM) { result = "skip"; return; }
    TriVis v = TriVis(); the_visitor = &v; GUARD(o.k, got(boost::apply_visitor(v, std::forward<W>(w)...)));
}
template <class A, class B, class C, int I> struct Tri {        // I: the categories in base 3
    static void run(const Op& o) {
        if (o.c != I % 3 + 4 * (I / 3 % 3) + 16 * (I / 9)) return Tri<A, B, C, I - 1>::run(o);
        // (without an rvalue among the operands: run_tri)
        call(o, std::integral_constant<bool, I % 3 == 2 || I / 3 % 3 == 2 || I / 9 == 2>());
    }
    static void call(const Op&, std::false_type) { std::_Exit(9); }
    static void call(const Op& o, std::true_type) {
        tri_forms(o, static_cast<typename As3<I % 3, A>::type>(at<A>(o.d)), static_cast<typename As3<I / 3 % 3, B>::type>(at<B>(o.s)), static_cast<typename As3<I / 9, C>::type>(at<C>(o.q)));
    }
};
template <class A, class B, class C> struct Tri<A, B, C, -1> { static void run(const Op&) { std::_Exit(9); } };
#endif
// five operands, the first one again as the last
template <class V> void run_quint(const Op& o) {
    V& a = at<V>(o.d); V& b = at<V>(o.s); V& c = at<V>(o.q); V& e = at<V>(o.z); const V& ca = a; const V& cb = b;
    if (o.c != 4 + 256) std::_Exit(9);
    two_forms(o, a, cb, c, e, ca);
}
// operands of different variant types
template <class A, class B, class C> void run_mixed(const Op& o) {
    A& a = at<A>(o.d); B& b = at<B>(o.s); C& c = at<C>(o.q); const A& ca = a; const C& cc = c;
    if (o.c == 0) few_forms(o, a, b, c); else if (o.c == 17) few_forms(o, ca, b, cc); else std::_Exit(9);
}
#endif

// ------------------------------------------------------------- get
#ifdef Q_GET
static int get_res, get_exp, get_cat;             // address id returned (0: null), expected if it designates the content, category of the result
static const void* cp;
template <class U, bool Hit> struct Exp { template <class T> static const void* go(const T&) { return 0; } };
template <class U> struct Exp<U, true> { template <class T> static const void* go(const T& t) { const U& u = t; return std::addressof(u); } };
// the address that a pointer to U designating the content would have, if the content is of a type that is or derives from U
template <class U> struct ExpV : boost::static_visitor<const void*> {
    template <class T> const void* operator()(const T& t) const { return Exp<U, std::is_base_of<U, T>::value || std::is_same<U, T>::value>::go(t); }
};
template <class U> struct PtrCat; template <class U> struct PtrCat<U*> { static const int v = std::is_const<U>::value; };
template <class P> void got_ptr(P p) { get_cat = PtrCat<P>::v; get_res = p ? aid((const void*)p) : 0; }
template <class R> void got_lref(R&& r) { get_cat = CatOf<R>::v; get_res = aid((const void*)std::addressof(r)); }
#ifdef VH_NOEXC
#define GETG(stmt) GUARD(o.k, stmt)
#else
#define GETG(stmt) do { arm(o.k); \
    try { stmt; result = "ok"; } catch (boost::bad_polymorphic_get&) { result = "bad_polymorphic_get"; } catch (boost::bad_get&) { result = "bad_get"; } \
    catch (...) { result = "other"; } disarm(); } while (0)
#endif
template <class V, class U> void get_ptr(const Op& o, V* v, bool strict) {
    switch (o.x) {
    case 4: GETG(got_ptr(boost::relaxed_get<U>(v))); break;
    case 6: GETG(got_ptr(boost::polymorphic_relaxed_get<U>(v))); break;
    default: std::_Exit(9); }
}
template <class V, class U> void get_sptr(const Op& o, V* v) {
    switch (o.x) {
    case 0: GETG(got_ptr(boost::get<U>(v))); break;
    case 2: GETG(got_ptr(boost::strict_get<U>(v))); break;
    case 8: GETG(got_ptr(boost::polymorphic_get<U>(v))); break;
    case 10: GETG(got_ptr(boost::polymorphic_strict_get<U>(v))); break;
    default: get_ptr<V, U>(o, v, true); }
}
template <class U, class W> void get_ref(const Op& o, W&& v) {
    switch (o.x) {
    case 5: GETG(got_lref(boost::relaxed_get<U>(std::forward<W>(v)))); break;
    case 7: GETG(got_lref(boost::polymorphic_relaxed_get<U>(std::forward<W>(v)))); break;
    default: std::_Exit(9); }
}
template <class U, class W> void get_sref(const Op& o, W&& v) {
    switch (o.x) {
    case 1: GETG(got_lref(boost::get<U>(std::forward<W>(v)))); break;
    case 3: GETG(got_lref(boost::strict_get<U>(std::forward<W>(v)))); break;
    case 9: GETG(got_lref(boost::polymorphic_get<U>(std::forward<W>(v)))); break;
    case 11: GETG(got_lref(boost::polymorphic_strict_get<U>(std::forward<W>(v)))); break;
    default: get_ref<U>(o, std::forward<W>(v)); }
}
template <class V, class U, bool S> struct GetU {      // U in the list: all forms
    static void run(const Op& o) {
        V& v = at<V>(o.d); const V& cv = v; const void* e = boost::apply_visitor(ExpV<typename Bare<U>::type>(), cv); get_exp = e ? aid(e) : 0;
        if (o.x % 2 == 0) { if (o.q) { if (o.c) get_sptr<const V, U>(o, (const V*)0); else get_sptr<V, U>(o, (V*)0); }
                            else if (o.c) get_sptr<const V, U>(o, &cv); else get_sptr<V, U>(o, &v); }
        else if (o.c == 0) get_sref<U>(o, v); else if (o.c == 1) get_sref<U>(o, cv); else get_sref<U>(o, std::move(v));
    }
};
template <class V, class U> struct GetU<V, U, false> { // U outside the list: only the relaxed forms compile
    static void run(const Op& o) {
        V& v = at<V>(o.d); const V& cv = v; const void* e = boost::apply_visitor(ExpV<typename Bare<U>::type>(), cv); get_exp = e ? aid(e) : 0;
        if (o.x % 2 == 0) { if (o.q) { if (o.c) get_ptr<const V, U>(o, (const V*)0, false); else get_ptr<V, U>(o, (V*)0, false); }
                            else if (o.c) get_ptr<const V, U>(o, &cv, false); else get_ptr<V, U>(o, &v, false); }
        else if (o.c == 0) get_ref<U>(o, v); else if (o.c == 1) get_ref<U>(o, cv); else get_ref<U>(o, std::move(v));
    }
};
// what to ask for (o.w): 0.. the alternatives; 20 the same but const-qualified first one; 30 a foreign element; 31 Gate (common base);
// 32, 33: Mid<0>, Mid<1> (bases at a nonzero offset); 34 int; 40 + i: Base<tag> of alternative i
template <class V, class L> struct GetAlt;
template <class V> struct GetAlt<V, TL<>> { static void run(const Op&, int) { std::_Exit(9); } static void base(const Op&, int) { std::_Exit(9); } static void cq(const Op&, int) { std::_Exit(9); } };
template <class T> struct BaseOf { typedef typename T::B type; };
template <> struct BaseOf<boost::blank> { typedef struct NoBase type; };
struct NoBase {};
template <class V, class H, class... R> struct GetAlt<V, TL<H, R...>> {
    static void run(const Op& o, int w) { if (w) GetAlt<V, TL<R...>>::run(o, w - 1); else GetU<V, H, true>::run(o); }
    static void cq(const Op& o, int w) { if (w) GetAlt<V, TL<R...>>::cq(o, w - 1); else GetU<V, const H, true>::run(o); }
    static void base(const Op& o, int w) { if (w) GetAlt<V, TL<R...>>::base(o, w - 1); else GetU<V, typename BaseOf<H>::type, false>::run(o); }
};
template <class V, class L> void run_get(const Op& o) {
    get_res = get_exp = get_cat = -1;
    if (o.w < 20) GetAlt<V, L>::run(o, o.w);
    else if (o.w < 30) GetAlt<V, L>::cq(o, o.w - 20);
    else if (o.w == 30) GetU<V, ET<77>, false>::run(o);
    else if (o.w == 31) GetU<V, Gate, false>::run(o);
    else if (o.w == 32) GetU<V, Mid<0>, false>::run(o);
    else if (o.w == 33) GetU<V, Mid<1>, false>::run(o);
    else if (o.w == 34) GetU<V, int, false>::run(o);
    else GetAlt<V, L>::base(o, o.w - 40);
}
#endif

// ------------------------------------------------------------- comparison, hashing, output
#ifdef Q_REL
static int rel_res;
template <class V> void run_cmp(const Op& o) {
    const V& a = at<V>(o.d); const V& b = at<V>(o.s); rel_res = -1;
    switch (o.x) {
    case 0: GUARD(o.k, rel_res = (a == b)); break;
    case 1: GUARD(o.k, rel_res = (a != b)); break;
    case 2: GUARD(o.k, rel_res = (a < b)); break;
    case 3: GUARD(o.k, rel_res = (a > b)); break;
    case 4: GUARD(o.k, rel_res = (a <= b)); break;
    case 5: GUARD(o.k, rel_res = (a >= b)); break;
    default: std::_Exit(9); }
}
#endif
#ifdef Q_HASH
namespace boost { inline std::size_t hash_value(const blank&) { return 7; } }     // blank itself cannot be hashed
static unsigned long long hv, hb, hs; static std::set<std::string> rows;
template <class V> void run_hash(const Op& o) {
    const V& a = at<V>(o.d); hv = hb = hs = 0;
    GUARD(o.k, { hv = hash_value(a); hb = boost::hash<V>()(a); hs = std::hash<V>()(a); });
    if (!std::strcmp(result, "ok")) { ObsV ob; a.apply_visitor(ob); char b[96]; std::snprintf(b, sizeof b, "[%d,%d,%d,\"%llx\"]", slots[o.d].kind, wh(a), ob.v, hv); if (rows.size() < 8000) rows.insert(b); }
}
#endif
#ifdef Q_IO
static int same_stream;
struct IoLog { char txt[512]; int n; unsigned fl; int st, wi, pr; unsigned long fi; };
static IoLog io[2];
template <class C> void io_log(IoLog& l, std::basic_ostringstream<C>& s) {
    std::basic_string<C> t = s.str(); l.n = 0;
    for (size_t i = 0; i < t.size() && l.n < 500; ++i) { l.n += std::snprintf(l.txt + l.n, 8, "%02lx", (unsigned long)t[i]); }
    l.txt[l.n] = 0; l.fl = (unsigned)s.flags(); l.st = (int)s.rdstate(); l.wi = (int)s.width(); l.pr = (int)s.precision(); l.fi = (unsigned long)s.fill();
}
template <class C> struct Punct : std::numpunct<C> { C do_thousands_sep() const { return C('\''); } std::string do_grouping() const { return "\1"; } };
template <class C> void io_prep(std::basic_ostringstream<C>& s, int x) {
    s << C('>');
    if (x & 1) s << std::hex << std::showbase;
    if (x & 2) { s << std::setw(9); s.fill(C('*')); }
    if (x & 4) s.imbue(std::locale(std::locale::classic(), new Punct<C>));
    if (x & 8) s.setstate(std::ios::eofbit);
}
template <class C> struct Direct : boost::static_visitor<> { std::basic_ostream<C>* s; template <class T> void operator()(const T& t) const { (*s) << t; } };
template <class C, class V> void io_run(const Op& o, const V& v) {
    std::basic_ostringstream<C> a, b; io_prep(a, o.x); io_prep(b, o.x);
    Direct<C> d; d.s = &b;
    GUARD(o.k, v.apply_visitor(d)); const char* r0 = result; st().nev = 0;
    same_stream = 1;
    GUARD(o.k, same_stream = (&(a << v) == &a));
    if (std::strcmp(r0, result)) same_stream = 0;
    io_log(io[0], a); io_log(io[1], b);
}
template <class V> void run_io(const Op& o) { Pause p; const V& v = at<V>(o.d); if (o.w) io_run<wchar_t>(o, v); else io_run<char>(o, v); }
#endif

// ------------------------------------------------------------- adaptors
#ifdef Q_ADAPT
// delayed visitor: form o.x = 0 result_type, 1 C++14 generic; called unary on d, binary on d,s, ternary on d,s,d, unary on s, through one delayed object
template <class R> struct Take { template <class D, class... W> static void go(D& d, W&... w) { got(d(w...)); } };
template <> struct Take<int&> { template <class D, class... W> static void go(D& d, W&... w) { got_ref(d(w...)); } };
template <> struct Take<MoveOnly> { template <class D, class... W> static void go(D& d, W&... w) { got_mo(d(w...)); } };
template <> struct Take<void> { template <class D, class... W> static void go(D& d, W&... w) { res_same = 1; res_got = ret_token; d(w...); } };
template <class R, class D, class V, class W> void delay_calls(const Op& o, D& del, V& a, W& b) {
    if (o.w == 0) GUARD(o.k, Take<R>::go(del, a));
    else if (o.w == 1) GUARD(o.k, Take<R>::go(del, a, b));
    else if (o.w == 2) GUARD(o.k, { del(b); Take<R>::go(del, a); });
    else GUARD(o.k, { del(a, b); del(b); Take<R>::go(del, a, a); });
}
template <class R, class D, class V, class W> void delay_few(const Op& o, D& del, V& a, W& b) {
    if (o.w == 0) GUARD(o.k, Take<R>::go(del, a)); else GUARD(o.k, Take<R>::go(del, a, b));
}
template <class V> void run_delay(const Op& o) {
    V& a = at<V>(o.d); V& b = at<V>(o.s); const V& ca = a; const V& cb = b;
#define DELAY(F, R, del) do { if (o.c == 0) F<R>(o, del, a, b); else if (o.c == 1) F<R>(o, del, ca, cb); else F<R>(o, del, a, cb); } while (0)
#define DELAY1(R, del) do { if (o.c == 0) delay_few<R>(o, del, a, b); else delay_few<R>(o, del, ca, b); } while (0)
    switch (o.x) {
    case 0: { Vis<int> v; the_visitor = &v; boost::apply_visitor_delayed_t<Vis<int>> del = boost::apply_visitor(v);
              if (o.w == 4) GUARD(o.k, Take<int>::go(del, a, cb, a)); else DELAY(delay_calls, int, del); break; }
    case 1: { Vis<int> v; the_visitor = &v; const auto del = boost::apply_visitor(v); auto del2 = del; DELAY(delay_calls, int, del2); break; }
    case 2: { IF14(Gen<int> v; the_visitor = &v; auto del = boost::apply_visitor(v);
                   if (o.w == 4) GUARD(o.k, Take<int>::go(del, a, cb, a)); else DELAY(delay_calls, int, del)); break; }
    case 3: { const Vis<int> v; the_visitor = &v; auto del = boost::apply_visitor(v); DELAY1(int, del); break; }
    case 4: { Vis<int&> v; the_visitor = &v; auto del = boost::apply_visitor(v); DELAY1(int&, del); break; }
    case 5: { Vis<void> v; the_visitor = &v; auto del = boost::apply_visitor(v); DELAY1(void, del); break; }
    case 6: { IF14(const Gen<int> v; the_visitor = &v; auto del = boost::apply_visitor(v); DELAY1(int, del)); break; }
    case 7: { IF14(Gen<int&> v; the_visitor = &v; auto del = boost::apply_visitor(v); DELAY1(int&, del)); break; }
    case 8: { IF14(Gen<void> v; the_visitor = &v; auto del = boost::apply_visitor(v); DELAY1(void, del)); break; }
    case 9: { Vis<MoveOnly> v; the_visitor = &v; auto del = boost::apply_visitor(v); DELAY1(MoveOnly, del); break; }
    default: std::_Exit(9); }
}
// operands of different variant types
template <class A, class B> void run_delay2(const Op& o) {
    A& a = at<A>(o.d); B& b = at<B>(o.s); const A& ca = a;
    if (o.x == 0) { Vis<int> v; the_visitor = &v; auto del = boost::apply_visitor(v); DELAY1(int, del); }
    else { IF14(Gen<int&> v; the_visitor = &v; auto del = boost::apply_visitor(v); DELAY1(int&, del)); }
}
// visitor_ptr: function taking alternative o.w by const reference (x = 0), reference (1), value (2); result int, void (x + 3), reference (x = 6)
#ifdef VH_NOEXC
#define VPG(stmt) GUARD(o.k, stmt)
#else
#define VPG(stmt) do { arm(o.k); \
    try { stmt; result = "ok"; } catch (Fault&) { result = "fault"; } catch (boost::bad_visit&) { result = "bad_visit"; } \
    catch (...) { result = "other"; } disarm(); } while (0)
#endif
template <class T> int f_cref(const T& t) { log_call(the_visitor, 0, t); return ret_token; }
template <class T> int f_ref(T& t) { log_call(the_visitor, 0, t); return ret_token; }
template <class T> int f_val(T t) { { Pause p; } log_call(the_visitor, 0, t); return ret_token; }
template <class T> void f_vcref(const T& t) { log_call(the_visitor, 0, t); }
template <class T> int& f_rcref(const T& t) { log_call(the_visitor, 0, t); return ret_cell; }
template <class V, class T, bool C> struct ByVal { template <class W> static void go(const Op& o, W& w) { auto p = boost::visitor_ptr(&f_val<T>); VPG(got(boost::apply_visitor(p, w))); } };
template <class V, class T> struct ByVal<V, T, false> { template <class W> static void go(const Op&, W&) { result = "skip"; } };
template <class V, class T> struct VpT {
    template <class W> static void common(const Op& o, W& w) {
        if (o.x == 0) { auto p = boost::visitor_ptr(&f_cref<T>); VPG(got(boost::apply_visitor(p, w))); }
        else if (o.x == 2) ByVal<V, T, std::is_copy_constructible<T>::value>::go(o, w);
        else if (o.x == 3) { const auto p = boost::visitor_ptr(&f_vcref<T>); res_same = 1; res_got = ret_token; VPG(boost::apply_visitor(p, w)); }
        else if (o.x == 4) { auto p = boost::visitor_ptr(&f_rcref<T>); VPG(got_ref(boost::apply_visitor(p, w))); }
        else std::_Exit(9);
    }
    static void run(const Op& o) {
        V& v = at<V>(o.d); const V& cv = v;
        if (o.x == 1) { auto p = boost::visitor_ptr(&f_ref<T>); VPG(got(boost::apply_visitor(p, v))); }
        else if (o.c == 0) common(o, v); else common(o, cv);
    }
};
template <class V, class L> struct VpAlt;
template <class V> struct VpAlt<V, TL<>> { static void run(const Op&, int) { std::_Exit(9); } };
template <class V, class H, class... R> struct VpAlt<V, TL<H, R...>> { static void run(const Op& o, int w) { if (w) VpAlt<V, TL<R...>>::run(o, w - 1); else VpT<V, H>::run(o); } };
#endif

// ------------------------------------------------------------- dispatch and log
static bool is_query(const Op& o) { return o.n[0] == 'q'; }
template <class V, class L> void query_kind(const Op& o) {
    std::string n(o.n); calls_reset();
    if (n == "?") {}
#ifdef Q_VISIT
    else if (n == "qvisit") QVisit<V>::run(o);
#endif
#ifdef Q_MULTI
    else if (n == "qvis2") Bin<V, V, 15>::run(o);
#endif
#if defined(Q_TRI) && !defined(TRI_ALL)
    else if (n == "qvis3") run_tri<V>(o);
    else if (n == "qvis4") run_quad<V>(o);
    else if (n == "qvis5") run_quint<V>(o);
#endif
#ifdef Q_GET
    else if (n == "qget") run_get<V, L>(o);
#endif
#ifdef Q_REL
    else if (n == "qcmp") run_cmp<V>(o);
#endif
#ifdef Q_HASH
    else if (n == "qhash") run_hash<V>(o);
#endif
#ifdef Q_IO
    else if (n == "qio") run_io<V>(o);
#endif
#ifdef Q_ADAPT
    else if (n == "qdelay") run_delay<V>(o);
    else if (n == "qvptr") VpAlt<V, L>::run(o, o.w);
#endif
    else { std::fprintf(stderr, "unknown query %s\n", o.n); std::_Exit(9); }
}
static void exec_query(const Op& o) {
#ifdef Q_MULTI
    if (!std::strcmp(o.n, "qvis2") && slots[o.d].kind != slots[o.s].kind) {
        calls_reset();
        if (slots[o.d].kind == 0) Bin<V0, V1, 15>::run(o); else Bin<V1, V0, 15>::run(o);
        return;
    }
#endif
#ifdef Q_ADAPT
    if (!std::strcmp(o.n, "qdelay") && slots[o.d].kind != slots[o.s].kind) {
        calls_reset();
        if (slots[o.d].kind == 0) run_delay2<V0, V1>(o); else run_delay2<V1, V0>(o);
        return;
    }
#endif
#ifdef Q_TRI
#ifdef TRI_ALL
    if (!std::strcmp(o.n, "qquad")) { calls_reset(); tri_forms(o, at<V0>(o.d), at<V0>(o.s), at<V0>(o.q), std::move(at<V0>(o.z))); return; }
    if (!std::strcmp(o.n, "qtri")) { calls_reset(); if (slots[o.s].kind == 0) Tri<V0, V0, V0, 26>::run(o); else Tri<V0, V1, V0, 26>::run(o); return; }
#else
    if (!std::strcmp(o.n, "qvis3")) {
        calls_reset();
        switch (slots[o.d].kind * 4 + slots[o.s].kind * 2 + slots[o.q].kind) {
        case 1: run_mixed<V0, V0, V1>(o); return;
        case 2: run_mixed<V0, V1, V0>(o); return;
        case 3: run_mixed<V0, V1, V1>(o); return;
        case 4: run_mixed<V1, V0, V0>(o); return;
        case 5: run_mixed<V1, V0, V1>(o); return;
        case 6: run_mixed<V1, V1, V0>(o); return;
        default: break;
        }
    }
#endif
#endif
    if (slots[o.d].kind == 0) query_kind<V0, A0>(o); else query_kind<V1, A1>(o);
}
static void log_query(const Op& o) {
    Out& u = out(); kv(",\"q\":", o.q); kv(",\"z\":", o.z);
    u.s(",\"calls\":[");
    for (int i = 0; i < ncalls && i < 16; ++i) {
        CallLog& c = calls[i]; u.s(i ? ",[" : "["); u.i(c.self); u.s(","); u.i(c.vconst); u.s(",[");
        for (int j = 0; j < c.n; ++j) { u.s(j ? ",[" : "["); u.i(c.arg[j].tag); u.s(","); u.i(aid(c.arg[j].a)); u.s(","); u.i(c.arg[j].cat); u.s(","); u.i(c.arg[j].v); u.s("]"); }
        u.s("]]");
    }
    kv("],\"nc\":", ncalls); kv(",\"got\":", res_got); kv(",\"same\":", res_same); kv(",\"tok\":", ret_token); kv(",\"cell\":", ret_cell);
#ifdef Q_GET
    kv(",\"ra\":", get_res); kv(",\"ea\":", get_exp); kv(",\"rc\":", get_cat);
#endif
#ifdef Q_REL
    kv(",\"b\":", rel_res);
#endif
#ifdef Q_HASH
    char b[128]; int k = std::snprintf(b, sizeof b, ",\"hv\":\"%llx\",\"hb\":\"%llx\",\"hs\":\"%llx\"", hv, hb, hs); u.put(b, k);
#endif
#ifdef Q_IO
    kv(",\"ss\":", same_stream);
    u.s(",\"io\":[");
    for (int i = 0; i < 2; ++i) { u.s(i ? ",[\"" : "[\""); u.s(io[i].txt); u.s("\","); u.i(io[i].fl); u.s(","); u.i(io[i].st); u.s(","); u.i(io[i].wi); u.s(","); u.i(io[i].pr); u.s(","); u.i(io[i].fi); u.s("]"); }
    u.s("]");
#endif
}
static void head(long id, int k);
static void exec(const Op&);
static void hash_summary() {
#ifdef Q_HASH
    // every alternative with 128 values: the contents' hashes differ in each single bit
    for (int d = 1; d <= NV0 + NV1; ++d) if (d == 1 || d == NV0 + 1) {
        const int n = d == 1 ? A0::n : A1::n;
        for (int w = 0; w < n; ++w) for (int x = 0; x < 128; ++x) {
            reset();
            Op o = { "vctor", d, 0, w, x, 2, 0, 0, 0 }, q = { "qhash", d, 0, 0, 0, 0, 0, 0, 0 }, e = { "dtor", d, 0, 0, 0, 0, 0, 0, 0 };
            if (slots[d].live) continue;
            exec(o); exec(q); exec(e);
        }
    }
    reset();
    head(-2, 0); out().s("{\"o\":\"hsum\",\"rows\":["); bool f = true;
    for (std::set<std::string>::iterator i = rows.begin(); i != rows.end(); ++i) { if (!f) out().s(","); f = false; out().s(i->c_str()); }
    out().s("]}]}\n"); scenario_done();
#endif
}
#endif
