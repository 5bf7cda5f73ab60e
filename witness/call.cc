#include "wit.h"
using namespace wit;
// memory the caller supplies: for the bytes (cb_), for the object (pl_)
#define WIT_C(N, ...) WIT_SRC(N, __VA_ARGS__) \
  extern "C" std::size_t so_##N() { return sizeof(__VA_ARGS__); } \
  extern "C" std::size_t cb_##N(__VA_ARGS__& v) { auto r = checkpoint::serialize(v, [](std::size_t n) -> char* { return wit::outbuf(n); }); see_p(r->getBuffer()); return r->getSize(); } \
  extern "C" std::size_t nc_##N(__VA_ARGS__& v) { auto r = checkpoint::serialize(v); see_p(r->getBuffer()); return r->getSize(); } \
  extern "C" void pl_##N() { char* m = wit::place(); if (!m) __builtin_unreachable(); auto p = checkpoint::deserialize<__VA_ARGS__>(wit::input(), m); see_p(p); wit::obs<__VA_ARGS__>(*p); } \
  extern "C" void mr_##N() { auto p = checkpoint::deserialize<__VA_ARGS__>(wit::input()); see_p(p.get()); wit::obs<__VA_ARGS__>(*p); } \
  extern "C" void mi_##N(char* dummy, __VA_ARGS__& old) { checkpoint::deserializeInPlace(wit::input(), &old); wit::obs<__VA_ARGS__>(old); }
WIT_C(int, int)
WIT_C(E, E)
WIT_C(B, B)
WIT_C(M, M)
WIT_C(G, G)
WIT_C(str, std::string)
WIT_C(vE, std::vector<E>)
WIT_C(vB, std::vector<B>)
WIT_C(vb, std::vector<bool>)
WIT_C(lM, std::list<M>)
WIT_C(miE, std::map<int, E>)
WIT_C(upE, std::unique_ptr<E>)
WIT_C(oM, std::optional<M>)
WIT_C(tup, std::tuple<int, E, std::string>)
WIT_C(aE, std::array<E, 3>)
