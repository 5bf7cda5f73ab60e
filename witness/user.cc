#include "wit.h"
// user-defined classes: nested, inheriting, non-intrusive, with arrays
struct In { long p; std::string q; template <typename S> void serialize(S& s) { s | p; s | q; } };
struct Outer {
  wit::E e; std::vector<In> ins; std::unique_ptr<wit::E> up; wit::B b; int n = 0;
  template <typename S> void serialize(S& s) { s | e | ins | up; s | b; s | n; }
};
struct Base0 { int x = 1; template <typename S> void serialize(S& s) { s | x; } };
struct Der : Base0 { long y = 2; std::vector<int> v; template <typename S> void serialize(S& s) { Base0::serialize(s); s | y; s | v; } };
struct NI { long a; short b; char c; };
template <typename S> void serialize(S& s, NI& v) { s | v.a; s | v.b; s | v.c; }
struct Arr { int a[4]; wit::E e[3]; wit::B b[2];
  template <typename S> void serialize(S& s) { checkpoint::dispatch::serializeArray(s, a, 4); checkpoint::dispatch::serializeArray(s, e, 3); checkpoint::dispatch::serializeArray(s, b, 2); } };
struct One { char c; template <typename S> void serialize(S& s) { s | c; } };
struct Empty { template <typename S> void serialize(S&) {} };
struct Two { One o; Empty e; NI n; short h; bool f; float g; unsigned long long u;
  template <typename S> void serialize(S& s) { s | o | e | n | h | f | g | u; } };
struct Sel { std::size_t n; long w; 
  template <typename S> void serialize(S& s) { s | n; if (n > 4) s | w; } };

namespace wit {
template <> struct Obs<In> { static void of(In const& t) { obs(t.p); obs(t.q); } };
template <> struct Obs<Outer> { static void of(Outer const& t) { obs(t.e); obs(t.ins); obs(t.up); obs(t.b); obs(t.n); } };
template <> struct Obs<Base0> { static void of(Base0 const& t) { obs(t.x); } };
template <> struct Obs<Der> { static void of(Der const& t) { obs(t.x); obs(t.y); obs(t.v); } };
template <> struct Obs<NI> { static void of(NI const& t) { obs(t.a); obs(t.b); obs(t.c); } };
template <> struct Obs<Arr> { static void of(Arr const& t) { for (int i = 0; i < 4; i++) obs(t.a[i]); for (int i = 0; i < 3; i++) obs(t.e[i]); for (int i = 0; i < 2; i++) obs(t.b[i]); } };
template <> struct Obs<One> { static void of(One const& t) { obs(t.c); } };
template <> struct Obs<Empty> { static void of(Empty const&) { } };
template <> struct Obs<Two> { static void of(Two const& t) { obs(t.o); obs(t.n); obs(t.h); obs(t.f); obs(t.g); obs(t.u); } };
template <> struct Obs<Sel> { static void of(Sel const& t) { obs(t.n); if (t.n > 4) obs(t.w); } };
}
using namespace wit;
WIT_N(outer, Outer)
WIT(der, Der)
WIT(ni, NI)
WIT(arr, Arr)
WIT(one, One)
WIT(empty, Empty)
WIT(two, Two)
WIT(sel, Sel)
WIT(vni, std::vector<NI>)
WIT(vtwo, std::vector<Two>)
WIT_N(vder, std::vector<Der>)
WIT(mni, std::map<int, NI>)
WIT(vone, std::vector<One>)
WIT(aarr, std::array<Arr, 2>)
WIT_N(uder, std::unique_ptr<Der>)
WIT(M, M)
WIT(G, G)
