#include "wit.h"
// classes that write other than they announced
namespace wit {
struct L1 { int a; int b; template <typename S> void serialize(S& s) { s | a; if (not s.isSizing()) s | b; } };
struct L2 { int a; int b; template <typename S> void serialize(S& s) { s | a; if (s.isSizing()) s | b; } };
struct L3 { int a; int b; template <typename S> void serialize(S& s) { s | a; if (not s.isSizing() and a > 5) s | b; } };
struct L4 {
  std::size_t n, m; char* p;
  template <typename S> void serialize(S& s) { s.contiguousBytes(p, 1, s.isSizing() ? n : m); }
};
struct L5 { int a; L3 x; template <typename S> void serialize(S& s) { s | a; s | x; } };
struct L6 { int a; long b; template <typename S> void serialize(S& s) { if (s.isSizing()) s | a; else s | b; } };
}
using namespace wit;
#define WIT_L(N, ...) \
  extern "C" std::size_t sz_##N(__VA_ARGS__& v) { return checkpoint::getSize(v); } \
  extern "C" std::size_t mw_##N(__VA_ARGS__& v) { auto r = checkpoint::serialize(v, [](std::size_t n) -> char* { return wit::outbuf(n); }); return r->getSize(); } \
  extern "C" std::size_t mn_##N(__VA_ARGS__& v) { auto r = checkpoint::serialize(v); return r->getSize(); }
WIT_L(L1, L1)
WIT_L(L2, L2)
WIT_L(L3, L3)
WIT_L(L4, L4)
WIT_L(L5, L5)
WIT_L(L6, L6)
WIT_L(vL3, std::vector<L3>)
WIT_L(upL1, std::unique_ptr<L1>)
WIT_L(int, int)
