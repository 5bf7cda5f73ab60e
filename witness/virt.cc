#include "wit.h"
#include "checkpoint/buffer/io_buffer.cc"
#include <sstream>
// registered class hierarchies.  The constructors are visible, so that the
// dynamic type of every object is known to the analysis; what the members hold
// is not.  visit(this, n): the serialize function of level n was run;
// made(this, n): the constructor of level n.
namespace wit {
long pick(int) noexcept;
void made(void const*, int) noexcept;
using checkpoint::SERIALIZE_CONSTRUCT_TAG;
struct Base : checkpoint::SerializableBase<Base> {
  long b;
  Base() : b(pick(0)) { made(this, 0); }
  explicit Base(SERIALIZE_CONSTRUCT_TAG) { made(this, 0); }
  virtual void show() const { see_i(b); }
  template <typename S> void serialize(S& s) { visit(this, 10); s | b; }
};
struct Mid : checkpoint::SerializableDerived<Mid, Base> {
  int m;
  Mid() : m(pick(1)) { made(this, 1); }
  explicit Mid(SERIALIZE_CONSTRUCT_TAG t) : checkpoint::SerializableDerived<Mid, Base>(t) { made(this, 1); }
  void show() const override { Base::show(); see_i(m); }
  template <typename S> void serialize(S& s) { visit(this, 11); s | m; }
};
struct Low : checkpoint::SerializableDerived<Low, Mid> {
  long l;
  Low() : l(pick(2)) { made(this, 2); }
  explicit Low(SERIALIZE_CONSTRUCT_TAG t) : checkpoint::SerializableDerived<Low, Mid>(t) { made(this, 2); }
  void show() const override { Mid::show(); see_i(l); }
  template <typename S> void serialize(S& s) { visit(this, 12); s | l; }
};
struct Side : checkpoint::SerializableDerived<Side, Base> {
  int x, y;
  Side() : x(pick(3)), y(pick(4)) { made(this, 3); }
  explicit Side(SERIALIZE_CONSTRUCT_TAG t) : checkpoint::SerializableDerived<Side, Base>(t) { made(this, 3); }
  void show() const override { Base::show(); see_i(x); see_i(y); }
  template <typename S> void serialize(S& s) { visit(this, 13); s | x; s | y; }
};
// a second hierarchy, with an abstract root and an intermediate class
struct Root : checkpoint::SerializableBase<Root> {
  int r;
  Root() : r(pick(5)) { made(this, 4); }
  explicit Root(SERIALIZE_CONSTRUCT_TAG) { made(this, 4); }
  virtual void f() = 0;
  virtual void show() const { see_i(r); }
  template <typename S> void serialize(S& s) { visit(this, 14); s | r; }
};
struct Abs : checkpoint::SerializableDerived<Abs, Root> {
  long a;
  Abs() : a(pick(6)) { made(this, 5); }
  explicit Abs(SERIALIZE_CONSTRUCT_TAG t) : checkpoint::SerializableDerived<Abs, Root>(t) { made(this, 5); }
  virtual void g() = 0;
  void show() const override { Root::show(); see_i(a); }
  template <typename S> void serialize(S& s) { visit(this, 15); s | a; }
};
struct End : checkpoint::SerializableDerived<End, Abs> {
  int e;
  End() : e(pick(7)) { made(this, 6); }
  explicit End(SERIALIZE_CONSTRUCT_TAG t) : checkpoint::SerializableDerived<End, Abs>(t) { made(this, 6); }
  void f() override { }
  void g() override { }
  void show() const override { Abs::show(); see_i(e); }
  template <typename S> void serialize(S& s) { visit(this, 16); s | e; }
};
struct End2 : checkpoint::SerializableDerived<End2, End> {
  long z;
  End2() : z(pick(8)) { made(this, 7); }
  explicit End2(SERIALIZE_CONSTRUCT_TAG t) : checkpoint::SerializableDerived<End2, End>(t) { made(this, 7); }
  void show() const override { End::show(); see_i(z); }
  template <typename S> void serialize(S& s) { visit(this, 17); s | z; }
};
}
using namespace wit;
// an object of class T behind a pointer to P
#define SRC(P, T) std::unique_ptr<P> p(new T)
#define WIT_V(N, P, T) \
  extern "C" std::size_t sz_##N() { SRC(P, T); return checkpoint::getSize(p); } \
  extern "C" std::size_t fp_##N() { SRC(P, T); return checkpoint::getMemoryFootprint(p, 0); } \
  extern "C" void wr_##N(std::ostream& o) { SRC(P, T); checkpoint::serializeToStream(p, o); } \
  extern "C" void ws_##N(std::stringstream& o) { SRC(P, T); checkpoint::serializeToStream(p, o); } \
  extern "C" void mw_##N() { SRC(P, T); auto r = checkpoint::serialize(p, [](std::size_t n) -> char* { char* b = wit::outbuf(n); if (!b) __builtin_unreachable(); return b; }); } \
  extern "C" void mn_##N() { SRC(P, T); auto r = checkpoint::serialize(p); } \
  extern "C" void fw_##N(std::string const& f) { SRC(P, T); checkpoint::serializeToFile(p, f); } \
  extern "C" void ip_##N(std::istream& i) { SRC(P, T); checkpoint::deserializeInPlaceFromStream(i, &p); see_p(p.get()); if (p) p->show(); } \
  extern "C" void mi_##N() { SRC(P, T); checkpoint::deserializeInPlace(wit::input(), &p); see_p(p.get()); if (p) p->show(); }
#define WIT_R(P) \
  extern "C" void rd_##P(std::istream& i) { auto p = checkpoint::deserializeFromStream<std::unique_ptr<P>>(i); see_p(p->get()); if (*p) (*p)->show(); } \
  extern "C" void rs_##P(std::stringstream& i) { auto p = checkpoint::deserializeFromStream<std::unique_ptr<P>>(i); see_p(p->get()); if (*p) (*p)->show(); } \
  extern "C" void mr_##P() { auto p = checkpoint::deserialize<std::unique_ptr<P>>(wit::input()); see_p(p->get()); if (*p) (*p)->show(); } \
  extern "C" void fr_##P(std::string const& f) { auto p = checkpoint::deserializeFromFile<std::unique_ptr<P>>(f); see_p(p->get()); if (*p) (*p)->show(); }
WIT_V(Base_Base, Base, Base)
WIT_V(Base_Mid, Base, Mid)
WIT_V(Base_Low, Base, Low)
WIT_V(Base_Side, Base, Side)
WIT_V(Mid_Mid, Mid, Mid)
WIT_V(Mid_Low, Mid, Low)
WIT_V(Root_End, Root, End)
WIT_V(Root_End2, Root, End2)
WIT_V(Abs_End2, Abs, End2)
WIT_R(Base)
WIT_R(Mid)
WIT_R(Root)
WIT_R(Abs)
#undef SRC
#define SRC(P, T) std::unique_ptr<P> p
WIT_V(Base_null, Base, )
WIT_V(Root_null, Root, )
