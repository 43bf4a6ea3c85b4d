// Instrumented value types ("elements"), fault injection, allocation accounting and the scenario log.
// Nothing here looks at Boost.Variant's internals: elements report what is done to them.
#ifndef VH_TRACK_HPP
#define VH_TRACK_HPP
#include <cstdio>
#include <memory>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cstdint>
#include <csignal>
#include <exception>
#include <new>
#include <utility>
#include <ostream>
#include <unistd.h>

namespace vh {

struct Fault {};                       // the injected exception

// ---------------------------------------------------------------- output buffer (no operator new)
struct Out {
    char* p; size_t n, cap, mark;          // mark: end of the last complete step
    Out() : p((char*)std::malloc(1 << 16)), n(0), cap(1 << 16), mark(0) {}
    void done() { mark = n; }
    void put(const char* s, size_t k) {
        if (n + k + 1 > cap) { while (n + k + 1 > cap) cap *= 2; p = (char*)std::realloc(p, cap); }
        std::memcpy(p + n, s, k); n += k;
    }
    void s(const char* z) { put(z, std::strlen(z)); }
    void i(long v) { char b[32]; int k = std::snprintf(b, sizeof b, "%ld", v); put(b, k); }
    void clear() { n = 0; mark = 0; }
};
inline void flush_fd(const char* p, size_t n) {
    while (n) { ssize_t k = ::write(1, p, n); if (k <= 0) break; p += k; n -= k; }
}
inline Out& out() { static Out o; return o; }     // the scenario being written
inline Out& sink() { static Out o; return o; }    // finished scenarios, written in blocks
inline void sink_flush() { flush_fd(sink().p, sink().n); sink().clear(); }
inline void scenario_done() {
    sink().put(out().p, out().n); out().clear();
    if (sink().n > (1 << 20)) sink_flush();
}

// ---------------------------------------------------------------- per-scenario state
const int MAXADDR = 1 << 16;
struct State {
    const void* addr[MAXADDR]; int naddr;      // address -> small id
    int serial;                                // serial numbers of element objects
    bool armed; int countdown; int fired;      // fault injection
    int fpoints;                               // fault points passed during the call
    long outstanding;                          // live heap blocks allocated inside calls
    int nalloc;                                // allocations of the current call
    bool in_call;
    struct Ev { char k; int a, tag, src; } ev[1 << 16]; int nev;
    const char* cur;                           // current activity, for crash reports
    char last[16];                             // last operation begun
};
inline State& st() { static State* s = (State*)std::calloc(1, sizeof(State)); return *s; }
inline void reset() { State& s = st(); s.naddr = 0; s.serial = 0; s.armed = false; s.countdown = 0; s.fired = 0; s.fpoints = 0;
                      s.nalloc = 0; s.in_call = false; s.nev = 0; s.outstanding = 0; s.cur = "?"; std::strcpy(s.last, "-"); }
inline int aid(const void* p) {
    State& s = st();
    for (int i = s.naddr; i-- > 0; ) if (s.addr[i] == p) return i + 1;
    if (s.naddr == MAXADDR) { std::fprintf(stderr, "too many addresses\n"); std::_Exit(9); }
    s.addr[s.naddr++] = p; return s.naddr;
}
inline void ev(char k, const void* a, int tag, const void* src) {
    State& s = st();
    if (s.nev == (1 << 16)) { std::fprintf(stderr, "too many events\n"); std::_Exit(9); }
    State::Ev& e = s.ev[s.nev++]; e.k = k; e.a = a ? aid(a) : 0; e.tag = tag; e.src = src ? aid(src) : 0;
}
// true: the fault fires here
inline bool point() {
    State& s = st();
    if (!s.in_call) return false;
    ++s.fpoints;
    if (s.armed && --s.countdown == 0) { s.armed = false; s.fired = s.fpoints; return true; }
    return false;
}
#ifdef VH_NOEXC              // built without exceptions: no faults; what the library reports goes to the program's throw_exception
#define VH_THROW(e) std::abort()
#else
#define VH_THROW(e) throw e
#endif
inline void throw_point() { if (point()) { ev('x', 0, 0, 0); VH_THROW(Fault()); } }

inline void arm(int k) {
#ifdef VH_NOEXC
    k = 0;
#endif
    State& s = st(); s.armed = k > 0; s.countdown = k; s.fired = 0; s.fpoints = 0; s.nalloc = 0; s.in_call = true; }
inline void disarm() { st().armed = false; st().in_call = false; }
struct Pause { bool c; Pause() : c(st().in_call) { st().in_call = false; } ~Pause() { st().in_call = c; } };

// ---------------------------------------------------------------- crash reporting
inline void crash_out(const char* what) {
    static bool once = false; if (once) return; once = true;
    flush_fd(sink().p, sink().n); sink().clear();
    if (out().mark) {
        flush_fd(out().p, out().mark);
        char b[256]; int k = std::snprintf(b, sizeof b, "%s{\"o\":\"crash\",\"why\":\"%s\",\"in\":\"%s\",\"last\":\"%s\"}]}\n",
                                           out().p[out().mark - 1] == '[' ? "" : ",", what, st().cur ? st().cur : "?", st().last);
        flush_fd(b, k);
    }
}
}
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
namespace vh {
inline void on_sig(int s) { crash_out(s == SIGABRT ? "abort" : s == SIGSEGV ? "segv" : s == SIGALRM ? "timeout" : "signal"); ::_exit(3); }
inline void on_san() { crash_out("sanitizer"); }
inline void on_term() { crash_out("terminate"); ::_exit(3); }
inline void install() {
    std::signal(SIGABRT, on_sig);
    std::signal(SIGALRM, on_sig);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_san);
    else { std::signal(SIGSEGV, on_sig); std::signal(SIGBUS, on_sig); std::signal(SIGFPE, on_sig); std::signal(SIGILL, on_sig); }
    std::set_terminate(on_term);
}

// ---------------------------------------------------------------- elements
const int MOVED = -1, DEFVAL = 0;
template <int Tag> struct Base {
    int val; int ser; unsigned magic; const void* self;
    static unsigned mg() { return 0xE1E30000u + (unsigned)Tag; }
    bool good() const { return magic == mg() && self == this; }
    void born(int v) { val = v; ser = ++st().serial; magic = mg(); self = this; }
    ~Base() {                              // volatile: the marks must survive optimisation
        ev('d', this, Tag, 0);
        *const_cast<volatile unsigned*>(&magic) = 0xDEADDEADu; *const_cast<const void* volatile*>(&self) = 0; *const_cast<volatile int*>(&val) = -77;
    }
    static const int tag = Tag;
protected:
    Base() {}
    Base(const Base&) {}
    Base& operator=(const Base&) { return *this; }
};
// operations, shared by the classes below. TH: whether the operation is a fault point.
template <int Tag, bool TH> inline void op_def(Base<Tag>* me) { if (TH) throw_point(); me->born(DEFVAL); ev('c', me, Tag, 0); }
template <int Tag> inline void op_val(Base<Tag>* me, int v) { me->born(v); ev('c', me, Tag, 0); }
template <int Tag, bool TH> inline void op_copy(Base<Tag>* me, const Base<Tag>* o) {
    if (TH) throw_point();
    me->born(o->good() ? o->val : -99); ev('k', me, Tag, o);
}
template <int Tag, bool TH> inline void op_move(Base<Tag>* me, Base<Tag>* o) {
    if (TH) throw_point();
    me->born(o->good() ? o->val : -99); o->val = MOVED; ev('m', me, Tag, o);
}
template <int Tag, bool TH> inline void op_casg(Base<Tag>* me, const Base<Tag>* o) {
    if (TH) throw_point();
    me->val = o->good() ? o->val : -99; ev('a', me, Tag, o);
}
template <int Tag, bool TH> inline void op_masg(Base<Tag>* me, Base<Tag>* o) {
    if (TH) throw_point();
    ev('v', me, Tag, o);
    if (me != o) { me->val = o->good() ? o->val : -99; o->val = MOVED; }
}

struct Val { int v; explicit Val(int x) : v(x) {} };
// a foreign type convertible to the element with the same tag, and to nothing else
template <int Tag> struct Cv { int v; explicit Cv(int x) : v(x) {} };
// A construction that throws must not log the destruction of the (already constructed) Base: Base's
// destructor would run. So the operation runs in the Base initialiser's place: a throwing member that
// precedes the Base subobject's lifetime. We use a helper base "Gate" for that.
struct Gate { Gate() {} explicit Gate(bool th) { if (th) throw_point(); } };

inline void* decoy() { static long double d[64]; return d; }      // what a hostile operator& returns

template <int P> struct Mid { int mid_; Mid() : mid_(P) {} };      // a second base, at a nonzero offset, shared by several elements

#define VH_CLASS(...) VH_CLASS_(__VA_ARGS__, VH_NO)
#define VH_CLASS_(NAME, CNX, MNX, CANX, MANX, DNX, HASC, HASM, HASD, AMP)                               \
template <int Tag, int Pad = 0, int Al = 8> struct alignas(Al) NAME : Gate, Base<Tag>, Mid<Tag % 2> {    \
    typedef Base<Tag> B;                                                                                \
    volatile unsigned char pad_[Pad + 1];            /* every byte of the object belongs to it */       \
    void fill() { for (int i = 0; i <= Pad; ++i) pad_[i] = (unsigned char)(0xC3 ^ Tag); }               \
    bool good() const { for (int i = 0; i <= Pad; ++i) if (pad_[i] != (unsigned char)(0xC3 ^ Tag)) return false; return B::good(); } \
    explicit NAME(Val v) : Gate(), B() { op_val<Tag>(this, v.v); fill(); }                              \
    NAME(const Cv<Tag>& c) : Gate(true), B() { op_val<Tag>(this, c.v); fill(); }                        \
    HASD(NAME() noexcept(DNX) : Gate(!(DNX)), B() { op_def<Tag, false>(this); fill(); })                \
    HASC(NAME(const NAME& o) noexcept(CNX) : Gate(!(CNX)), B() { op_copy<Tag, false>(this, std::addressof(o)); fill(); }) \
    HASM(NAME(NAME&& o) noexcept(MNX) : Gate(!(MNX)), B() { op_move<Tag, false>(this, std::addressof(o)); fill(); })   \
    HASC(NAME& operator=(const NAME& o) noexcept(CANX) { op_casg<Tag, !(CANX)>(this, std::addressof(o)); return *this; }) \
    AMP(NAME* operator&() { return static_cast<NAME*>(decoy()); } const NAME* operator&() const { return static_cast<const NAME*>(decoy()); }) \
    HASM(NAME& operator=(NAME&& o) noexcept(MANX) { op_masg<Tag, !(MANX)>(this, std::addressof(o)); return *this; })   \
    ~NAME() noexcept { for (int i = 0; i <= Pad; ++i) pad_[i] = 0; }                                    \
};
#define VH_YES(...) __VA_ARGS__
#define VH_NO(...)
//        name  copy  move  casg  masg  def   copy?    move?    default?
VH_CLASS(EN,   true, true, true, true, false, VH_YES, VH_YES, VH_NO)
VH_CLASS(ENd,  true, true, true, true, true,  VH_YES, VH_YES, VH_YES)
VH_CLASS(EM,   false,true, false,true, false, VH_YES, VH_YES, VH_NO)
VH_CLASS(EMd,  false,true, false,true, true,  VH_YES, VH_YES, VH_YES)
VH_CLASS(EMa,  false,true, false,false,false, VH_YES, VH_YES, VH_NO)
VH_CLASS(ET,   false,false,false,false,false, VH_YES, VH_YES, VH_NO)
VH_CLASS(ETd,  false,false,false,false,true,  VH_YES, VH_YES, VH_YES)
VH_CLASS(ETt,  false,false,false,false,false, VH_YES, VH_YES, VH_YES)   // throwing default constructor
VH_CLASS(EC,   false,false,false,false,false, VH_YES, VH_NO,  VH_NO)    // copy only
VH_CLASS(ECd,  false,false,false,false,true,  VH_YES, VH_NO,  VH_YES)
VH_CLASS(EX,   true, false,true, false,false, VH_YES, VH_YES, VH_NO)
VH_CLASS(EO,   false,true, false,true, false, VH_NO,  VH_YES, VH_NO)    // move only
VH_CLASS(EOd,  false,true, false,true, true,  VH_NO,  VH_YES, VH_YES)
VH_CLASS_(EA,  false,false,false,false,false, VH_YES, VH_YES, VH_NO, VH_YES)   // overloaded operator&

}

// ---------------------------------------------------------------- relations, hash and output of elements
// Deliberately no total order and not symmetric: results then tell which operand was passed where.
namespace vh {
inline bool rel_eq(int a, int b) { return (3 * (a + 100) + (b + 100)) % 4 == 0 || (a == b && a % 3 != 0); }
inline bool rel_lt(int a, int b) { return (2 * (a + 100) + 3 * (b + 100)) % 5 < 2; }
template <int Tag> bool operator==(const Base<Tag>& a, const Base<Tag>& b) { throw_point(); return rel_eq(a.val, b.val); }
template <int Tag> bool operator<(const Base<Tag>& a, const Base<Tag>& b) { throw_point(); return rel_lt(a.val, b.val); }
// the other operators exist, with unrelated meanings: a variant must not use them
template <int Tag> bool operator!=(const Base<Tag>& a, const Base<Tag>& b) { return a.val % 2 == 0; }
template <int Tag> bool operator>(const Base<Tag>& a, const Base<Tag>& b) { return b.val % 2 == 0; }
template <int Tag> bool operator<=(const Base<Tag>& a, const Base<Tag>& b) { return a.val % 3 == 0; }
template <int Tag> bool operator>=(const Base<Tag>& a, const Base<Tag>& b) { return b.val % 3 == 0; }
template <int Tag> std::size_t hash_value(const Base<Tag>& a) { throw_point(); std::size_t m = (std::size_t)(a.val + 100) / 2; return m * 2654435761u ^ ((a.val & 1) ? (std::size_t)1 << (m % 64) : 0); }
template <class C, class Tr, int Tag> std::basic_ostream<C, Tr>& operator<<(std::basic_ostream<C, Tr>& o, const Base<Tag>& a) {
    throw_point();
    o << a.val * 1000 << C('/') << Tag;
    if (a.val % 5 == 0) o.setstate(std::ios_base::failbit);
    if (a.val % 4 == 1) o.precision(3);
    if (a.val % 4 == 2) o.setf(std::ios_base::oct, std::ios_base::basefield);
    throw_point();
    return o;
}
}

// ---------------------------------------------------------------- global allocation accounting
#ifdef VH_MAIN
namespace vh {
inline void* do_new(std::size_t n, std::size_t al = 16) {
    State& s = st();
    if (s.in_call) {
        ++s.nalloc;
        if (point()) { ev('x', 0, 1, 0); VH_THROW(std::bad_alloc()); }
    }
    if (al < 16) al = 16;
    void* p = 0;
    if (posix_memalign(&p, al, n + al)) std::abort();
    char* q = (char*)p + al;
    ((uint64_t*)q)[-1] = s.in_call ? 0xA110CA7Eu : 0xB10CB10Cu;
    ((uint64_t*)q)[-2] = al;
    if (s.in_call) ++s.outstanding;
    return q;
}
inline void do_delete(void* q) {
    if (!q) return;
    uint64_t m = ((uint64_t*)q)[-1];
    if (m == 0xA110CA7Eu) --st().outstanding;
    else if (m != 0xB10CB10Cu) { crash_out("bad-delete"); ::_exit(3); }
    ((uint64_t*)q)[-1] = 0xF4EEF4EEu;
    std::free((char*)q - ((uint64_t*)q)[-2]);
}
}
void* operator new(std::size_t n) { return vh::do_new(n); }
void* operator new[](std::size_t n) { return vh::do_new(n); }
void operator delete(void* p) noexcept { vh::do_delete(p); }
void operator delete[](void* p) noexcept { vh::do_delete(p); }
void operator delete(void* p, std::size_t) noexcept { vh::do_delete(p); }
void operator delete[](void* p, std::size_t) noexcept { vh::do_delete(p); }
#ifdef __cpp_aligned_new
void* operator new(std::size_t n, std::align_val_t a) { return vh::do_new(n, (std::size_t)a); }
void* operator new[](std::size_t n, std::align_val_t a) { return vh::do_new(n, (std::size_t)a); }
void operator delete(void* p, std::align_val_t) noexcept { vh::do_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { vh::do_delete(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { vh::do_delete(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { vh::do_delete(p); }
#endif
#endif
#endif
