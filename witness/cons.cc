#include "wit.h"
// which way of creating an object is used: every combination of the ways a
// class may offer
using Tag = checkpoint::SERIALIZE_CONSTRUCT_TAG;
struct Rec { };
#define BODY(C) long a; C(Rec); C(C const&); C(C&&); C& operator=(C const&); C& operator=(C&&); ~C(); \
  template <typename S> void serialize(S& s) { s | a; }
#define INTR(C) static C& reconstruct(void* p) { return *new (p) C(Rec{}); }
namespace wit {
struct D { BODY(D) D(); };
struct DI { BODY(DI) DI(); INTR(DI) };
struct DT { BODY(DT) DT(); explicit DT(Tag); };
struct DTI { BODY(DTI) DTI(); explicit DTI(Tag); INTR(DTI) };
struct T { BODY(T) explicit T(Tag); };
struct TI { BODY(TI) explicit TI(Tag); INTR(TI) };
struct I { BODY(I) INTR(I) };
struct DN { BODY(DN) DN(); };
struct N { BODY(N) };
struct TN { BODY(TN) explicit TN(Tag); };
struct DTN { BODY(DTN) DTN(); explicit DTN(Tag); };
struct DS { BODY(DS) DS(); };
struct Sp { BODY(Sp) };
struct TSp { BODY(TSp) explicit TSp(Tag); };
// can only be moved
struct MO { long a; explicit MO(Tag); MO(MO const&) = delete; MO(MO&&); MO& operator=(MO&&); ~MO(); template <typename S> void serialize(S& s) { s | a; } };
struct MOI { long a; MOI(Rec); MOI(MOI const&) = delete; MOI(MOI&&); MOI& operator=(MOI&&); ~MOI(); INTR(MOI) template <typename S> void serialize(S& s) { s | a; } };
#define NONI(C) inline void reconstruct(C*& t, void* p) { t = new (p) C(Rec{}); }
NONI(DN) NONI(N) NONI(TN) NONI(DTN)
}
namespace checkpoint {
#define SPEC(C) template <> struct CheckpointReconstructor<wit::C> { static void reconstruct(wit::C*& t, void* p) { t = new (p) wit::C(Rec{}); } };
SPEC(DS) SPEC(Sp) SPEC(TSp)
}
namespace wit {
#define OBS(C) template <> struct Obs<C> { static void of(C const& t) { obs(t.a); } };
OBS(D) OBS(DI) OBS(DT) OBS(DTI) OBS(T) OBS(TI) OBS(I) OBS(DN) OBS(N) OBS(TN) OBS(DTN) OBS(DS) OBS(Sp) OBS(TSp) OBS(MO) OBS(MOI)
}
using namespace wit;
// c_: as the object itself;  u_: owned by a unique_ptr;  l_, m_, o_: created as
// an element of a list, map, optional;  p_: on memory the caller supplies
#define CONS(C) \
  extern "C" void x_t_##C(std::istream& i) { auto p = checkpoint::deserializeFromStream<C>(i); obs(*p); } \
  extern "C" void x_b_##C() { auto p = checkpoint::deserialize<C>(input()); obs(*p); } \
  extern "C" void x_p_##C() { auto p = checkpoint::deserialize<C>(input(), place()); obs(*p); } \
  extern "C" void x_u_##C(std::istream& i) { auto p = checkpoint::deserializeFromStream<std::unique_ptr<C>>(i); if (*p) obs(**p); } \
  extern "C" void x_l_##C(std::istream& i) { auto p = checkpoint::deserializeFromStream<std::list<C>>(i); } \
  extern "C" void x_o_##C(std::istream& i) { auto p = checkpoint::deserializeFromStream<std::optional<C>>(i); } \
  extern "C" void x_v_##C(std::istream& i) { auto p = checkpoint::deserializeFromStream<std::vector<C>>(i); }
CONS(D) CONS(DI) CONS(DT) CONS(DTI) CONS(T) CONS(TI) CONS(I) CONS(DN) CONS(N) CONS(TN) CONS(DTN) CONS(DS) CONS(Sp) CONS(TSp)

#define CONSM(C) \
  extern "C" void x_t_##C(std::istream& i) { auto p = checkpoint::deserializeFromStream<C>(i); obs(*p); } \
  extern "C" void x_b_##C() { auto p = checkpoint::deserialize<C>(input()); obs(*p); } \
  extern "C" void x_p_##C() { auto p = checkpoint::deserialize<C>(input(), place()); obs(*p); } \
  extern "C" void x_u_##C(std::istream& i) { auto p = checkpoint::deserializeFromStream<std::unique_ptr<C>>(i); if (*p) obs(**p); } \
  extern "C" void x_v_##C(std::istream& i) { auto p = checkpoint::deserializeFromStream<std::vector<C>>(i); }
CONSM(MO) CONSM(MOI)
