// Driver for the layout of variants (Layout.tla): blobs of any size and alignment, all of whose bytes are the value.
#define VH_MAIN
#include "track.hpp"
#include <boost/variant.hpp>
using namespace vh;
namespace la {
inline void tp() { if (st().in_call) throw_point(); }
template <int S, int A, int K, int T> struct alignas(A) Blob {
    unsigned char d[S];
    explicit Blob(Val v) noexcept { std::memset(d, v.v, S); }
    Blob(const Blob& o) noexcept(K == 0) { if (K) tp(); std::memcpy(d, o.d, S); }
    Blob(Blob&& o) noexcept(K == 0) { if (K) tp(); std::memcpy(d, o.d, S); }
    Blob& operator=(const Blob& o) noexcept(K == 0) { if (K) tp(); std::memmove(d, o.d, S); return *this; }
    Blob& operator=(Blob&& o) noexcept(K == 0) { if (K) tp(); std::memmove(d, o.d, S); return *this; }
    ~Blob() noexcept { std::memset(d, 0xDD, S); }
};
template <int S, int A, int T> struct alignas(A) Blob<S, A, 2, T> {
    unsigned char d[S];
    Blob() noexcept { std::memset(d, 0, S); }
    explicit Blob(Val v) noexcept { std::memset(d, v.v, S); }
    Blob(const Blob& o) { tp(); std::memcpy(d, o.d, S); }
    Blob(Blob&& o) { tp(); std::memcpy(d, o.d, S); }
    Blob& operator=(const Blob& o) { tp(); std::memmove(d, o.d, S); return *this; }
    Blob& operator=(Blob&& o) { tp(); std::memmove(d, o.d, S); return *this; }
    ~Blob() noexcept { std::memset(d, 0xDD, S); }
};
struct Where { unsigned char* p; int size, align; };
struct Loc : boost::static_visitor<Where> {
    template <class B> Where operator()(B& b) const { Where w = { reinterpret_cast<unsigned char*>(std::addressof(b)), (int)sizeof(B), (int)alignof(B) }; return w; }
};
inline int uniform(const Where& w) { for (int i = 1; i < w.size; ++i) if (w.p[i] != w.p[0]) return -1; return w.p[0]; }

template <class V> struct Arena {              // the variant lies at an address with exactly its own alignment, between guard bytes
    enum { AL = alignof(V), SZ = sizeof(V), PRE = (64 + AL - 1) / AL * AL };
    unsigned char* raw; unsigned char* base; V* v;
    Arena() {
        void* p = 0; if (posix_memalign(&p, 2 * AL < 16 ? 16 : 2 * AL, PRE + 3 * AL + SZ + 64)) std::abort();
        raw = (unsigned char*)p; std::memset(raw, 0xEE, PRE + 3 * AL + SZ + 64);
        base = raw + PRE; if ((reinterpret_cast<std::uintptr_t>(base) / AL) % 2 == 0) base += AL;
        v = reinterpret_cast<V*>(base);
    }
    ~Arena() { std::free(raw); }
    bool guards() const { for (unsigned char* q = raw; q < base; ++q) if (*q != 0xEE) return false;
                          for (unsigned char* q = base + SZ; q < raw + PRE + 3 * AL + SZ + 64; ++q) if (*q != 0xEE) return false; return true; }
};
struct Call { char f; int j, k; };             // f: c ctor v vas p cas m mas s swap
static int id = 0;
template <class V, class... Bs> struct Lay {
    template <class B> static V* make(void* p, int x) { B b((Val(x))); V* r; arm(0); try { r = new (p) V(std::move(b)); } catch (...) { std::abort(); } disarm(); return r; }
    template <class B> static void vas(V& v, int x, int k) { B b((Val(x))); arm(k); v = (const B&)b; disarm(); }
    typedef V* (*Mk)(void*, int); typedef void (*As)(V&, int, int);
    static V* mk(int j, void* p, int x) { static const Mk t[] = { &make<Bs>... }; return t[j](p, x); }
    static void as(int j, V& v, int x, int k) { static const As t[] = { &vas<Bs>... }; t[j](v, x, k); }
    static void step(const char* fn, const Call& c, int x, const char* r, Arena<V>& a, bool first, int ow, int ov, int na, int fired) {
        V& v = *a.v; Out& o = out(); o.s(first ? "" : ",");
        const int w = v.which(); Where p = boost::apply_visitor(Loc(), v); const int val = uniform(p);
        const bool inl = p.p + p.size > a.base && p.p < a.base + sizeof(V);
        std::memset(p.p, 0, p.size); const int f0 = v.which(); std::memset(p.p, 0xFF, p.size); const int f1 = v.which(); std::memset(p.p, val, p.size);
        o.s("{\"o\":\"lay\",\"f\":\""); o.s(fn); o.s("\",\"j\":"); o.i(c.j + 1); o.s(",\"k\":"); o.i(c.k); o.s(",\"x\":"); o.i(x); o.s(",\"r\":\""); o.s(r);
        o.s("\",\"w\":"); o.i(w + 1); o.s(",\"v\":"); o.i(val); o.s(",\"inl\":"); o.i(inl); o.s(",\"off\":"); o.i(inl ? (long)(p.p - a.base) : 0);
        o.s(",\"mod\":"); o.i((long)(reinterpret_cast<std::uintptr_t>(p.p) % p.align)); o.s(",\"g\":"); o.i(a.guards());
        o.s(",\"f0\":"); o.i(f0 + 1); o.s(",\"f1\":"); o.i(f1 + 1); o.s(",\"na\":"); o.i(na); o.s(",\"ow\":"); o.i(ow); o.s(",\"ov\":"); o.i(ov); o.s(",\"fired\":"); o.i(fired); o.s("}"); o.done();
    }
    static void history(const char* l, const Call* h, int n) {
        reset(); out().clear(); st().cur = "lay"; alarm(30);
        Out& o = out(); o.s("{\"cfg\":\"layout\",\"id\":"); o.i(id++); o.s(",\"l\":"); o.s(l); o.s(",\"sz\":"); o.i(sizeof(V)); o.s(",\"al\":"); o.i(alignof(V)); o.s(",\"steps\":["); o.done();
        { Arena<V> a;
          for (int q = 0; q < n; ++q) {
            const Call& c = h[q]; int x = 11 + 23 * q, ow = 0, ov = 0; const char* r = "ok"; st().nalloc = 0; st().fired = 0;
            if (c.f == 'c') { mk(c.j, a.base, x); step("ctor", c, x, r, a, true, 0, 0, st().nalloc, 0); continue; }
            const char* fn = c.f == 'v' ? "vas" : c.f == 'p' ? "cas" : c.f == 'm' ? "mas" : "swap";
            int na = 0, fired = 0;
            try {
                if (c.f == 'v') { as(c.j, *a.v, x, c.k); }
                else {
                    Arena<V> b; V& s = *mk(c.j, b.base, x); V& d = *a.v; 
                    struct G { V& s; ~G() { disarm(); s.~V(); } } g = { s }; (void)g;
                    arm(c.k);
                    if (c.f == 'p') d = (const V&)s; else if (c.f == 'm') d = std::move(s); else d.swap(s);
                    disarm();
                    if (c.f == 's') { ow = s.which() + 1; ov = uniform(boost::apply_visitor(Loc(), s)); }
                }
            } catch (Fault&) { r = "fault"; } catch (std::bad_alloc&) { r = "fault"; } catch (...) { r = "other"; }
            disarm(); na = st().nalloc; fired = st().fired != 0;
            step(fn, c, x, r, a, false, ow, ov, na, fired);
          }
          a.v->~V();
          o.s(",{\"o\":\"end\",\"left\":"); o.i(st().outstanding); o.s("}"); o.done();
        }
        alarm(0); o.s("]}\n"); scenario_done();
    }
};
}
