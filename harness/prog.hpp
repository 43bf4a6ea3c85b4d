// Common part of the programs of Interface.tla (precompiled).
#include <boost/variant.hpp>
#include <boost/variant/multivisitors.hpp>
#include <boost/variant/polymorphic_get.hpp>
#include <boost/functional/hash.hpp>
#include <string>
#include <utility>
#include <type_traits>
#include <sstream>
struct Bs { int b; virtual ~Bs() {} };
#define CLS(N, BASE) struct N BASE { int v; }; inline bool operator==(const N&, const N&) { return true; } inline bool operator<(const N&, const N&) { return true; }
CLS(A, : Bs) CLS(B, ) CLS(C, ) CLS(Z, )
struct D : A {};
struct None {};
struct M { M() {} M(M&&) noexcept {} M& operator=(M&&) noexcept { return *this; } };
struct Q { const int v; Q() : v(1) {} Q(const Q&) noexcept : v(1) {} };
struct Nd { explicit Nd(int) {} };
struct NoOps {};
struct EqOnly {}; inline bool operator==(const EqOnly&, const EqOnly&) { return true; }
struct LtOnly {}; inline bool operator<(const LtOnly&, const LtOnly&) { return true; }
inline std::ostream& operator<<(std::ostream& o, const Z&) { return o; }
inline std::size_t hash_value(const Z&) { return 1; }
template <int K> struct T { int v; };
template <class X> X& lv();
template <class X> const X& clv();
template <class X> X&& rv();
template <class X> const X&& crv();
inline B& someB() { static B b; return b; }
