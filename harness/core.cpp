// Core driver: executes operation scripts against real variants and records what can be observed.
// It judges nothing: spec/VariantTrace.tla does. One JSON line per scenario.
//   usage: core SCRIPT [first-line [ndrop]]
// script lines:   P op;op;...        run and log every call
//                 T op;op;...;op     run the prefix silently, log the state before the last call, the last call with
//                                    every fault point in turn (none, 1, 2, ...), and the teardown
// op:             name d s w x c k   (k: fault point, 0 = none)
#define VH_MAIN
#include "track.hpp"
#include <boost/variant.hpp>
#include <boost/blank.hpp>
#include <boost/variant/recursive_wrapper.hpp>
#include <boost/variant/get.hpp>
#include <boost/variant/polymorphic_get.hpp>
#include <boost/variant/static_visitor.hpp>
#include <boost/variant/apply_visitor.hpp>
#include <vector>
#include <string>
#include <iostream>
#include <fstream>
#include <sstream>
#include <type_traits>
#include <memory>
#include <algorithm>
#ifdef VH_NOEXC
#include <csetjmp>
#include <boost/throw_exception.hpp>
#include <boost/variant/bad_visit.hpp>
#endif
using namespace vh;

template <class... T> struct TL { static const int n = sizeof...(T); };
template <class L> struct Len; template <class... T> struct Len<TL<T...>> { static const int v = sizeof...(T); };

// ------------------------------------------------------------- what an object is, for the log
const int BLANK_TAG = 90;
template <class T> struct TagOf { static const int v = T::tag; };
template <> struct TagOf<boost::blank> { static const int v = BLANK_TAG; };
template <class T> inline int val_of(const T& t) { return t.val; }
inline int val_of(const boost::blank&) { return DEFVAL; }
template <class T> inline int ser_of(const T& t) { return t.ser; }
inline int ser_of(const boost::blank&) { return 0; }
template <class T> inline bool good_of(const T& t) { return t.good(); }
inline bool good_of(const boost::blank&) { return true; }
template <class T> inline const void* addr_of(const T& t) { return static_cast<const void*>(static_cast<const typename T::B*>(std::addressof(t))); }
inline const void* addr_of(const boost::blank& b) { return &b; }
template <class T> inline void set_val(T& t, int x) { t.val = x; }
inline void set_val(boost::blank&, int) {}
template <class T> struct Mk { T t; explicit Mk(int x) : t(Val(x)) {} };
template <> struct Mk<boost::blank> { boost::blank t; explicit Mk(int) {} };

#include CFG_HEADER     // defines: V0, A0 (TL of unwrapped alternatives), NV0 slots; V1, A1, NV1; CFG_NAME; HAS_CONV etc.

// which() in terms of the configuration's alternatives: lists with unrelated extra alternatives map positions (WHMAPn)
#ifndef WHMAP0
#define WHMAP0 -1
#endif
#ifndef WHMAP1
#define WHMAP1 -1
#endif
template <class V> inline int wh(const V& v) {
    static const int m0[] = { WHMAP0 }; static const int m1[] = { WHMAP1 };
    bool k0 = std::is_same<V, V0>::value;
    const int* m = k0 ? m0 : m1; int n = k0 ? sizeof m0 / sizeof *m0 : sizeof m1 / sizeof *m1;
    int w = v.which();
    if (m[0] < 0) return w;
    for (int i = 0; i < n; ++i) if (m[i] == w) return i;
    return 1000 + w;
}
// ------------------------------------------------------------- slots
struct Slot { int kind; void* mem; bool live; };
static Slot slots[NV0 + NV1 + 1];
static const int NSLOT = NV0 + NV1;
static void slots_init() {
    for (int i = 1; i <= NSLOT; ++i) {
        slots[i].kind = i <= NV0 ? 0 : 1; slots[i].live = false;
        size_t n = slots[i].kind == 0 ? sizeof(V0) : sizeof(V1), al = slots[i].kind == 0 ? alignof(V0) : alignof(V1);
        void* p = 0; if (posix_memalign(&p, 4096, n + al)) std::abort();
        slots[i].mem = (char*)p + al;          // aligned exactly as much as the type asks for
    }
}
template <class V> inline V& at(int i) { return *static_cast<V*>(slots[i].mem); }

// ------------------------------------------------------------- observation
struct ObsV : boost::static_visitor<> {
    int t, v, s; const void* a; const void* o; bool g; std::size_t al, sz;
    template <class T> void operator()(T& x) { t = TagOf<typename std::remove_cv<T>::type>::v; v = val_of(x); s = ser_of(x); a = addr_of(x); o = std::addressof(x); g = good_of(x); al = alignof(T); sz = sizeof(T); }
};
template <class V, class L> struct Probe;
template <class V> struct Probe<V, TL<>> {
    static void get(V&, bool&) {} static void type(V&, bool&) {} static const void* gaddr(V&) { return 0; }
};
template <class V, class H, class... R> struct Probe<V, TL<H, R...>> {
    static void get(V& v, bool& first) {
        const V& cv = v;
        if (boost::strict_get<H>(&cv)) { out().s(first ? "" : ","); out().i(TagOf<H>::v); first = false; }
        Probe<V, TL<R...>>::get(v, first);
    }
    static void type(V& v, bool& first) {
        if (boost::typeindex::type_index(v.type()) == boost::typeindex::type_id<H>()) { out().s(first ? "" : ","); out().i(TagOf<H>::v); first = false; }
        Probe<V, TL<R...>>::type(v, first);
    }
    static const void* gaddr(V& v) {
        if (H* p = boost::relaxed_get<H>(&v)) return addr_of(*p);
        return Probe<V, TL<R...>>::gaddr(v);
    }
};
static void kv(const char* k, long v) { out().s(k); out().i(v); }
template <class V, class L> void observe1(V& v) {
    Out& o = out(); const V& cv = v;
    ObsV a; cv.apply_visitor(a);
    ObsV b; boost::apply_visitor(b, v);
    const char* lo = (const char*)&v; const char* p = (const char*)a.o;
    kv("{\"w\":", wh(v)); kv(",\"t\":", a.t); kv(",\"u\":", b.t); kv(",\"v\":", a.v); kv(",\"s\":", a.s);
    kv(",\"a\":", aid(a.a)); kv(",\"b\":", aid(b.a)); kv(",\"i\":", p >= lo && p < lo + sizeof(V)); kv(",\"f\":", !(p >= lo && p < lo + sizeof(V)) || p + a.sz <= lo + sizeof(V));
    kv(",\"q\":", (std::uintptr_t)p % a.al == 0); kv(",\"ok\":", a.g && b.g);
    kv(",\"e\":", v.empty());
    o.s(",\"g\":["); bool f = true; Probe<V, L>::get(v, f);
    o.s("],\"y\":["); f = true; Probe<V, L>::type(v, f);
    const void* ga = Probe<V, L>::gaddr(v);
    kv("],\"ga\":", ga ? aid(ga) : 0); o.s("}");
}
static void observe() {
    Pause ps; int before = st().nev; const char* c = st().cur; st().cur = "observe";
    out().s("\"sl\":[");
    for (int i = 1; i <= NSLOT; ++i) {
        if (i > 1) out().s(",");
        if (!slots[i].live) out().s("{\"w\":-1}");
        else if (slots[i].kind == 0) observe1<V0, A0>(at<V0>(i));
        else observe1<V1, A1>(at<V1>(i));
    }
    out().s("]"); kv(",\"oe\":", st().nev - before);
    st().nev = before; st().cur = c;
}
static void put_events() {
    State& s = st(); Out& o = out();
    o.s("\"ev\":[");
    for (int i = 0; i < s.nev; ++i) {
        State::Ev& e = s.ev[i]; char b[64];
        int k = std::snprintf(b, sizeof b, "%s[\"%c\",%d,%d,%d]", i ? "," : "", e.k, e.a, e.tag, e.src); o.put(b, k);
    }
    o.s("]"); s.nev = 0;
}

// ------------------------------------------------------------- operations
struct Op { char n[8]; int d, s, w, x, c, k, q, z; };      // c: 0 lvalue 1 const lvalue 2 rvalue 3 const rvalue
static const char* result;
static int xv;                                        // value of the external argument after the call; -1000: none
static const char* tostr(const char* r) { return r; }
#ifdef VH_NOEXC
static jmp_buf vh_jmp;
static const char* vh_thrown;
static void vh_report(const std::exception& e) {
    vh_thrown = dynamic_cast<const boost::bad_polymorphic_get*>(&e) ? "bad_polymorphic_get" : dynamic_cast<const boost::bad_get*>(&e) ? "bad_get" : dynamic_cast<const boost::bad_visit*>(&e) ? "bad_visit" : "other";
    longjmp(vh_jmp, 1);
}
namespace boost {
BOOST_NORETURN void throw_exception(std::exception const& e) { vh_report(e); std::abort(); }
BOOST_NORETURN void throw_exception(std::exception const& e, boost::source_location const&) { vh_report(e); std::abort(); }
}
#define GUARD(k_, stmt) do { arm(k_); if (!setjmp(vh_jmp)) { stmt; result = tostr("ok"); } else result = vh_thrown; disarm(); } while (0)
#else
#define GUARD(k_, stmt) do { arm(k_); \
    try { stmt; result = tostr("ok"); } catch (Fault&) { result = "fault"; } catch (std::bad_alloc&) { result = "alloc"; } \
    catch (...) { result = "other"; } disarm(); } while (0)
#endif

template <class V, class L> struct ByType;
template <class V> struct ByType<V, TL<>> { static void vctor(const Op&, int) {} static void vas(const Op&, int) {}
    static void xctor(const Op&, int) {} static void xas(const Op&, int) {} static void mut(const Op&, int) {} };
// copyability guard: lvalue forms of move-only alternatives are not generated
template <class V, class T, bool C> struct Lv {
    static void ctor(void* m, T& t) { new (m) V(t); }
    static void cctor(void* m, const T& t) { new (m) V(t); }
    static void as(V& v, T& t) { v = t; }
    static void cas(V& v, const T& t) { v = t; }
};
template <class V, class T> struct Lv<V, T, false> {
    static void ctor(void*, T&) { std::abort(); } static void cctor(void*, const T&) { std::abort(); }
    static void as(V&, T&) { std::abort(); } static void cas(V&, const T&) { std::abort(); }
};
template <class V, class T, bool B> struct Cvt {
    static void ctor(const Op& o) { Cv<TagOf<T>::v> c(o.x); if (o.c == 2) GUARD(o.k, new (slots[o.d].mem) V(std::move(c))); else GUARD(o.k, new (slots[o.d].mem) V(c)); }
    static void as(const Op& o) { Cv<TagOf<T>::v> c(o.x); V& v = at<V>(o.d); if (o.c == 2) GUARD(o.k, v = std::move(c)); else GUARD(o.k, v = c); }
};
template <class V, class T> struct Cvt<V, T, false> { static void ctor(const Op&) { result = "ok"; } static void as(const Op&) { result = "ok"; } };
template <class V, class H, class... R> struct ByType<V, TL<H, R...>> {
    typedef ByType<V, TL<R...>> Next;
    typedef Lv<V, H, std::is_copy_constructible<H>::value> LV;
    static void vctor(const Op& o, int w) {
        if (w) return Next::vctor(o, w - 1);
        Mk<H> m(o.x); H& t = m.t; void* p = slots[o.d].mem;
        if (o.c == 0) GUARD(o.k, LV::ctor(p, t));
        else if (o.c == 1) GUARD(o.k, LV::cctor(p, t));
        else GUARD(o.k, new (p) V(std::move(t)));
        xv = good_of(t) ? val_of(t) : -99;
    }
    static void vas(const Op& o, int w) {
        if (w) return Next::vas(o, w - 1);
        Mk<H> m(o.x); H& t = m.t; V& v = at<V>(o.d);
        if (o.c == 0) GUARD(o.k, LV::as(v, t));
        else if (o.c == 1) GUARD(o.k, LV::cas(v, t));
        else GUARD(o.k, v = std::move(t));
        xv = good_of(t) ? val_of(t) : -99;
    }
    static const bool conv = !std::is_same<H, boost::blank>::value && std::is_constructible<V, Cv<TagOf<H>::v>&>::value;
    static void xctor(const Op& o, int w) { if (w) return Next::xctor(o, w - 1); Cvt<V, H, conv>::ctor(o); }
    static void xas(const Op& o, int w) { if (w) return Next::xas(o, w - 1); Cvt<V, H, conv>::as(o); }
    struct SetV : boost::static_visitor<> { int x; template <class T> void operator()(T& t) const { set_val(t, x); } };
    static void mut(const Op& o, int w) {
        if (w) return Next::mut(o, w - 1);
        V& v = at<V>(o.d);
        if (o.c == 0) { SetV sv; sv.x = o.x; GUARD(o.k, boost::apply_visitor(sv, v)); }
        else if (o.c == 1) GUARD(o.k, if (H* p = boost::get<H>(&v)) set_val(*p, o.x));
        else if (o.c == 2) GUARD(o.k, set_val(boost::strict_get<H>(v), o.x));
        else GUARD(o.k, set_val(boost::relaxed_get<H>(v), o.x));
    }
};
template <class V, bool D> struct Dflt { static void go(void* m) { new (m) V(); } };
template <class V> struct Dflt<V, false> { static void go(void*) { std::abort(); } };
template <class V, bool C> struct Cpy {
    static void ctor(void* m, const V& v) { new (m) V(v); }
    static void ctorn(void* m, V& v) { new (m) V(v); }
    static void ctork(void* m, const V&& v) { new (m) V(std::move(v)); }
    static void as(V& d, const V& v) { d = v; }
    static void asn(V& d, V& v) { d = v; }
    static void ask(V& d, const V&& v) { d = std::move(v); }
};
template <class V> struct Cpy<V, false> {
    static void ctor(void*, const V&) { std::abort(); } static void ctorn(void*, V&) { std::abort(); } static void ctork(void*, const V&&) { std::abort(); }
    static void as(V&, const V&) { std::abort(); } static void asn(V&, V&) { std::abort(); } static void ask(V&, const V&&) { std::abort(); }
};
template <class V, class L, bool DEF, bool COPY> void run_kind(const Op& o) {
    typedef Cpy<V, COPY> C;
    std::string n(o.n); void* m = slots[o.d].mem; bool& lv = slots[o.d].live; const bool was = lv;
    if (n == "dctor") { GUARD(o.k, (Dflt<V, DEF>::go(m))); }
    else if (n == "vctor") ByType<V, L>::vctor(o, o.w);
    else if (n == "xctor") ByType<V, L>::xctor(o, o.w);
    else if (n == "vas") ByType<V, L>::vas(o, o.w);
    else if (n == "xas") ByType<V, L>::xas(o, o.w);
    else if (n == "cctor") { V& s = at<V>(o.s); if (o.c == 0) GUARD(o.k, C::ctorn(m, s)); else if (o.c == 3) GUARD(o.k, C::ctork(m, std::move(s))); else GUARD(o.k, C::ctor(m, s)); }
    else if (n == "mctor") { V& s = at<V>(o.s); GUARD(o.k, new (m) V(std::move(s))); }
    else if (n == "cas") { V& s = at<V>(o.s); V& d = at<V>(o.d); if (o.c == 0) GUARD(o.k, C::asn(d, s)); else if (o.c == 3) GUARD(o.k, C::ask(d, std::move(s))); else GUARD(o.k, C::as(d, s)); }
    else if (n == "mas") { V& s = at<V>(o.s); V& d = at<V>(o.d); GUARD(o.k, d = std::move(s)); }
    else if (n == "swap") { V& s = at<V>(o.s); V& d = at<V>(o.d); if (o.c == 0) GUARD(o.k, d.swap(s)); else GUARD(o.k, swap(d, s)); }
    else if (n == "mut") { ByType<V, L>::mut(o, wh(at<V>(o.d))); }
    else if (n == "dtor") { V& d = at<V>(o.d); GUARD(o.k, d.~V()); lv = false; return; }
    else { std::fprintf(stderr, "unknown op %s\n", o.n); std::_Exit(9); }
    if (!was && result[0] == 'o' && result[1] == 'k') lv = true;
}
template <class D, class S, bool C> struct FCpy {
    static void ctor(void* m, S& s) { new (m) D(s); } static void as(D& d, S& s) { d = s; }
};
template <class D, class S> struct FCpy<D, S, false> { static void ctor(void*, S&) { std::abort(); } static void as(D&, S&) { std::abort(); } };
template <class V0, class V1, bool HASF> struct Foreign {
    static void run(const Op& o) {
        std::string n(o.n); void* m = slots[o.d].mem; bool was = slots[o.d].live; V1& s = at<V1>(o.s); const V1& cs = s;
        typedef FCpy<V0, V1, COPY1> L; typedef FCpy<V0, const V1, COPY1> C;
        if (n == "fctor") { if (o.c == 2) GUARD(o.k, new (m) V0(std::move(s))); else if (o.c == 1) GUARD(o.k, C::ctor(m, cs)); else GUARD(o.k, L::ctor(m, s)); }
        else { V0& d = at<V0>(o.d); if (o.c == 2) GUARD(o.k, d = std::move(s)); else if (o.c == 1) GUARD(o.k, C::as(d, cs)); else GUARD(o.k, L::as(d, s)); }
        if (!was && !std::strcmp(result, "ok")) slots[o.d].live = true;
    }
};
template <class V0, class V1> struct Foreign<V0, V1, false> { static void run(const Op&) { std::abort(); } };
#if defined(Q_VISIT) || defined(Q_MULTI) || defined(Q_TRI) || defined(Q_GET) || defined(Q_REL) || defined(Q_HASH) || defined(Q_IO) || defined(Q_ADAPT)
#include "query.hpp"
#else
static bool is_query(const Op&) { return false; }
static void exec_query(const Op&) {}
static void log_query(const Op&) {}
static void hash_summary() {}
#endif
static void exec(const Op& o) {
    xv = -1000; st().cur = o.n; std::strcpy(st().last, o.n); result = "?";
    if (is_query(o)) exec_query(o);
    else if (o.n[0] == 'f') Foreign<V0, V1, (NV1 > 0)>::run(o);
    else if (slots[o.d].kind == 0) run_kind<V0, A0, DEF0, COPY0>(o);
    else run_kind<V1, A1, DEF1, COPY1>(o);
}
// is the operation meaningful in the current state? (an earlier failure may have prevented a construction)
static bool enabled(const Op& o) {
    std::string n(o.n); bool ctor = n.size() > 3 && n.substr(n.size() - 4) == "ctor";
    if (ctor && slots[o.d].live) return false;
    if (!ctor && !slots[o.d].live) return false;
    if (o.s && !slots[o.s].live) return false;
    if (is_query(o) && std::strcmp(o.n, "qget") && ((o.q && !slots[o.q].live) || (o.z && !slots[o.z].live))) return false;
    return true;
}
static void log_step(const Op& o) {
    Out& u = out();
    u.s("{\"o\":\""); u.s(o.n); kv("\",\"d\":", o.d); kv(",\"s\":", o.s); kv(",\"w\":", o.w); kv(",\"x\":", o.x); kv(",\"c\":", o.c); kv(",\"k\":", o.k);
    u.s(",\"r\":\""); u.s(result); kv("\",\"p\":", st().fpoints); kv(",\"na\":", st().nalloc); kv(",\"xv\":", xv); kv(",\"h\":", st().outstanding); u.s(",");
    put_events(); if (is_query(o)) log_query(o); u.s(","); observe(); u.s("}"); u.done();
}
static void teardown() {
    st().cur = "end"; arm(0);
    for (int i = 1; i <= NSLOT; ++i) if (slots[i].live) { if (slots[i].kind == 0) at<V0>(i).~V0(); else at<V1>(i).~V1(); slots[i].live = false; }
    disarm();
    out().s("{\"o\":\"end\","); put_events(); kv(",\"h\":", st().outstanding); out().s("}");
}
static size_t nprefix;
static bool parse(const std::string& l, char& mode, std::vector<Op>& ops) {
    if (l.size() < 3) return false;
    mode = l[0]; ops.clear(); std::string body = l.substr(2); std::string t;
    size_t hash = body.find('#'); if (hash != std::string::npos) body[hash] = ';';
    nprefix = hash == std::string::npos ? 0 : 1 + std::count(body.begin(), body.begin() + hash, ';');
    std::stringstream ss(body);
    while (std::getline(ss, t, ';')) {
        Op o; std::memset(&o, 0, sizeof o);
        if (std::sscanf(t.c_str(), "%7s %d %d %d %d %d %d %d %d", o.n, &o.d, &o.s, &o.w, &o.x, &o.c, &o.k, &o.q, &o.z) < 7) return false;
#ifdef VH_NOEXC
        o.k = 0;
#endif
        ops.push_back(o);
    }
    return true;
}
static void scrub() { for (int i = 1; i <= NSLOT; ++i) std::memset(slots[i].mem, 0xA5, slots[i].kind == 0 ? sizeof(V0) : sizeof(V1)); }

static void head(long id, int k) {
    kv("{\"cfg\":\"" CFG_NAME "\",\"nv\":", NV0); kv(",\"nf\":", NV1); kv(",\"id\":", id); kv(",\"k\":", k); out().s(",\"steps\":["); out().done();
}
template <class L> struct AltHdr;
template <> struct AltHdr<TL<>> { static void go(bool) {} };
template <class H, class... R> struct AltHdr<TL<H, R...>> {
    static void go(bool first) {
        kv(first ? "{\"t\":" : ",{\"t\":", TagOf<H>::v);
        kv(",\"nc\":", std::is_nothrow_copy_constructible<H>::value); kv(",\"nm\":", std::is_nothrow_move_constructible<H>::value);
        kv(",\"nca\":", std::is_nothrow_copy_assignable<H>::value); kv(",\"nma\":", std::is_nothrow_move_assignable<H>::value);
        kv(",\"nd\":", std::is_nothrow_default_constructible<H>::value);
        kv(",\"hc\":", std::is_copy_constructible<H>::value); kv(",\"hd\":", std::is_default_constructible<H>::value); out().s("}");
        AltHdr<TL<R...>>::go(false);
    }
};
template <class V, bool DEF> struct DefNx { static bool v() { return noexcept(V()); } };
template <class V> struct DefNx<V, false> { static bool v() { return false; } };
template <class V, class L, bool DEF> void kind_header() {
    out().s("{\"alts\":["); AltHdr<L>::go(true); out().s("]");
    kv(",\"mc\":", noexcept(V(std::declval<V>()))); kv(",\"ma\":", noexcept(std::declval<V&>() = std::declval<V>()));
    kv(",\"dc\":", DefNx<V, DEF>::v()); kv(",\"de\":", noexcept(std::declval<V&>().~V()));
    kv(",\"wh\":", noexcept(std::declval<const V&>().which())); kv(",\"em\":", noexcept(std::declval<const V&>().empty())); out().s("}");
}

int main(int ac, char** av) {
    install(); slots_init();
    if (ac < 2) return 9;
    std::ifstream in(av[1]); std::string line; long no = 0, first = ac > 2 ? std::atol(av[2]) : 0;
    std::vector<Op> ops; char mode;
    // header: what the compiler says about this configuration
    {
        head(-1, 0); out().s("{\"o\":\"hdr\",\"kinds\":["); kind_header<V0, A0, DEF0>(); out().s(",");
        if (NV1) kind_header<V1, A1, DEF1>(); else out().s("{}");
        out().s("]}]}\n"); scenario_done();
    }
    while (std::getline(in, line)) {
        long ln = no++;
        if (ln < first) continue;
        if (!parse(line, mode, ops)) { std::fprintf(stderr, "bad line %s\n", line.c_str()); return 9; }
        // mode Q: "Q prefix#queries": run the prefix silently, then log every query
        for (int k = 0; k <= 200; ++k) {
            ::alarm(60);
            reset(); scrub();
            head(ln, k);
            bool sep = false; size_t last = ops.size() - 1; bool fired = false, ran = true;
            for (size_t j = 0; j < ops.size(); ++j) {
                Op o = ops[j];
                if ((mode == 'T' && j == last) || (mode == 'Q' && j == nprefix)) {
                    out().s("{\"o\":\"pre\","); observe(); out().s("}"); out().done(); sep = true; st().nev = 0; if (mode == 'T') o.k = k;
                }
                if (!enabled(o)) { if (mode == 'T' && j == last) ran = false; continue; }
                exec(o);
                if (mode == 'P' || (mode == 'T' && j == last) || (mode == 'Q' && j >= nprefix)) { if (sep) out().s(","); log_step(o); sep = true; }
                else st().nev = 0;
                if (mode == 'T' && j == last) fired = st().fired != 0;
            }
            if (sep) out().s(",");
            teardown();
            out().s("]}\n");
            if (!ran || (k > 0 && !fired)) out().clear();
            scenario_done();
            if (mode != 'T' || !ran) break;
            if (k > 0 && !fired) { break; }
        }
    }
    hash_summary();
    sink_flush();
    return 0;
}
