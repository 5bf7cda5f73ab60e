#include "wit.h"
// objects of class hierarchies held by value.  The classes are final, so that
// what is called on them is known without knowing what their memory holds.
namespace wit {
struct R : checkpoint::SerializableBase<R> {
  long r;
  R(); R(R const&); ~R();
  template <typename S> void serialize(S& s) { visit(this, 31); s | r; }
};
struct Q : checkpoint::SerializableDerived<Q, R> {
  int q;
  Q(); Q(Q const&); ~Q();
  template <typename S> void serialize(S& s) { visit(this, 32); s | q; }
};
struct One final : checkpoint::SerializableBase<One> {
  long a;
  One(); One(One const&); One& operator=(One const&); ~One();
  bool operator<(One const&) const noexcept; bool operator==(One const&) const noexcept;
  template <typename S> void serialize(S& s) { visit(this, 30); s | a; }
};
struct Two final : checkpoint::SerializableDerived<Two, R> {
  int b;
  Two(); Two(Two const&); Two& operator=(Two const&); ~Two();
  bool operator<(Two const&) const noexcept; bool operator==(Two const&) const noexcept;
  template <typename S> void serialize(S& s) { visit(this, 33); s | b; }
};
struct Three final : checkpoint::SerializableDerived<Three, Q> {
  int c; long d;
  Three(); Three(Three const&); Three& operator=(Three const&); ~Three();
  bool operator<(Three const&) const noexcept; bool operator==(Three const&) const noexcept;
  template <typename S> void serialize(S& s) { visit(this, 34); s | c; s | d; }
};
// members
struct Has {
  Two x; int i; Three y;
  Has();
  template <typename S> void serialize(S& s) { s | x; s | i; s | y; }
};
// a member of a hierarchy class that is of a hierarchy itself
struct Own final : checkpoint::SerializableDerived<Own, R> {
  Two x; int k;
  Own(); Own(Own const&); Own& operator=(Own const&); ~Own();
  template <typename S> void serialize(S& s) { visit(this, 35); s | x; s | k; }
};
template <> struct Obs<One> { static void of(One const& e) { see_i(e.a); } };
template <> struct Obs<Two> { static void of(Two const& e) { see_i(e.r); see_i(e.b); } };
template <> struct Obs<Three> { static void of(Three const& e) { see_i(e.r); see_i(e.q); see_i(e.c); see_i(e.d); } };
template <> struct Obs<Own> { static void of(Own const& e) { see_i(e.r); obs(e.x); see_i(e.k); } };
template <> struct Obs<Has> { static void of(Has const& e) { obs(e.x); see_i(e.i); obs(e.y); } };
}
using namespace wit;
#define ALL(T) \
  WIT(T, T) \
  WIT(v##T, std::vector<T>) \
  WIT(l##T, std::list<T>) \
  WIT(d##T, std::deque<T>) \
  WIT(a##T, std::array<T, 3>) \
  WIT(o##T, std::optional<T>) \
  WIT(p##T, std::pair<T, T>) \
  WIT(t##T, std::tuple<T, int, T>) \
  WIT(mi##T, std::map<int, T>)
ALL(One)
ALL(Two)
ALL(Three)
WIT(Has, Has)
WIT(Own, Own)
WIT(tOwn, std::tuple<Own, int>)
WIT(oOwn, std::optional<Own>)
WIT(vHas, std::vector<Has>)
