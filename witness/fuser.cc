#include "fp.h"
struct Arr;
namespace wit { template <> struct Fp<Arr> { static std::size_t of(Arr const&); }; }
#include "user.cc"
std::size_t wit::Fp<Arr>::of(Arr const& t) { std::size_t n = 0; for (int i = 0; i < 4; i++) n += fp(t.a[i]); for (int i = 0; i < 3; i++) n += fp(t.e[i]); for (int i = 0; i < 2; i++) n += fp(t.b[i]); return n; }
