#include "wit.h"
// What is transferred as bytes and what is traversed.  run(p, n): n bytes at p
// in one piece; visit(p, k): the serialize function of a class is run on p.
namespace wit {
void run(void const*, std::size_t);
// declared byte-copyable in each way there is
struct BM { using isByteCopyable = std::true_type; long x; int y; };                                         // by a member
struct BD : checkpoint::SerdesByteCopy { short x; char y; };                                                 // by a base
struct BN { double x; bool y; };                                                                             // from outside
struct BS { using isByteCopyable = std::true_type; int x; template <typename S> void serialize(S& s) { visit(this, 40); s | x; } };   // despite a serialize function
struct BI : BM { int z; };                                                                                   // by inheritance
// not byte-copied, however plain the class is
struct TF { using isByteCopyable = std::false_type; long x; template <typename S> void serialize(S& s) { visit(this, 41); s | x; } };
struct TP { int x; int y; template <typename S> void serialize(S& s) { visit(this, 42); s | x; s | y; } };
struct TN { int x; char y; };
template <typename S> void serialize(S& s, TN& t) { visit(&t, 43); s | t.x; s | t.y; }
struct TE { template <typename S> void serialize(S&) { visit(this, 44); } };
struct TC { TP p; BM b; TN n; int i; template <typename S> void serialize(S& s) { visit(this, 45); s | p; s | b; s | n; s | i; } };
struct TA { int a[5]; BM b[2]; TP t[3];
  template <typename S> void serialize(S& s) { visit(this, 46); checkpoint::dispatch::serializeArray(s, a, 5); checkpoint::dispatch::serializeArray(s, b, 2); checkpoint::dispatch::serializeArray(s, t, 3); } };
struct TB { TP* p; std::size_t n; template <typename S> void serialize(S& s) { visit(this, 47); s | n; checkpoint::dispatch::serializeArray(s, p, n); } };
struct TI : TP { long z; template <typename S> void serialize(S& s) { visit(this, 48); TP::serialize(s); s | z; } };

// ---- the reference ----
template <typename T> struct Bytes : std::is_arithmetic<T> {};
template <> struct Bytes<B> : std::true_type {};
template <> struct Bytes<BM> : std::true_type {};
template <> struct Bytes<BD> : std::true_type {};
template <> struct Bytes<BN> : std::true_type {};
template <> struct Bytes<BS> : std::true_type {};
template <> struct Bytes<BI> : std::true_type {};
template <typename... R> struct Bytes<std::variant<R...>> : std::bool_constant<(... && Bytes<R>::value)> {};
template <typename T, typename = void> struct Go;
template <typename T> void go(T const& t) { Go<std::remove_cv_t<T>>::of(const_cast<std::remove_cv_t<T>&>(t)); }
inline void count(std::size_t) { run(nullptr, sizeof(std::size_t)); }
template <typename T> void many(T const* p, std::size_t n) {
  if constexpr (Bytes<T>::value) { if (n > 0) run(p, n * sizeof(T)); }
  else for (std::size_t i = 0; i < n; i++) go(p[i]);
}
struct Spec { template <typename T> Spec& operator|(T& t) { go(t); return *this; } };
template <typename T, typename> struct Go { static void of(T& t) {
  if constexpr (Bytes<T>::value) run(&t, sizeof(T));
  else if constexpr (std::is_enum<T>::value) run(nullptr, sizeof(T));
  else if constexpr (std::is_same<T, TN>::value) { Spec s; serialize(s, t); }
  else { Spec s; t.serialize(s); } } };
template <> struct Go<TA> { static void of(TA& t) { visit(&t, 46); many(t.a, 5); many(t.b, 2); many(t.t, 3); } };
template <> struct Go<TB> { static void of(TB& t) { visit(&t, 47); run(&t.n, sizeof t.n); many(t.p, t.n); } };
template <typename T, typename A> struct Go<std::vector<T, A>> { static void of(std::vector<T, A>& c) { count(c.capacity()); count(c.size()); many(c.data(), c.size()); } };
template <typename A> struct Go<std::vector<bool, A>> { static void of(std::vector<bool, A>& c) { count(c.capacity()); count(c.size()); for (bool b : c) { (void)b; run(nullptr, 1); } } };
template <typename... R> struct Go<std::basic_string<char, R...>> { static void of(std::basic_string<char, R...>& c) { count(c.size()); many(c.data(), c.size()); } };
template <typename T, std::size_t N> struct Go<std::array<T, N>> { static void of(std::array<T, N>& c) { many(c.data(), N); } };
#define GO_ALL(C) template <typename... R> struct Go<C<R...>> { static void of(C<R...>& c) { count(c.size()); for (auto& e : c) go(e); } };
GO_ALL(std::list) GO_ALL(std::deque) GO_ALL(std::set) GO_ALL(std::multiset) GO_ALL(std::map) GO_ALL(std::multimap)
GO_ALL(std::unordered_set) GO_ALL(std::unordered_multiset) GO_ALL(std::unordered_map) GO_ALL(std::unordered_multimap)
template <typename A, typename C> struct Go<std::pair<A, C>> { static void of(std::pair<A, C>& t) { go(t.first); go(t.second); } };
template <typename... R> struct Go<std::tuple<R...>> { static void of(std::tuple<R...>& t) { std::apply([](auto&... x) { (go(x), ...); }, t); } };
template <typename T> struct Go<std::optional<T>> { static void of(std::optional<T>& t) { run(nullptr, 1); if (t.has_value()) go(*t); } };
template <typename T, typename D> struct Go<std::unique_ptr<T, D>> { static void of(std::unique_ptr<T, D>& t) { run(nullptr, 1); if (t) go(*t); } };
template <typename R, typename P> struct Go<std::chrono::duration<R, P>> { static void of(std::chrono::duration<R, P>&) { run(nullptr, sizeof(R)); } };
template <typename... R> struct Go<std::variant<R...>, std::enable_if_t<!Bytes<std::variant<R...>>::value>> {
  template <std::size_t I> static void at(std::variant<R...>& t) { if constexpr (I < sizeof...(R)) { if (t.index() == I) go(std::get<I>(t)); else at<I + 1>(t); } }
  static void of(std::variant<R...>& t) { if (t.index() >= sizeof...(R)) __builtin_unreachable(); count(0); at<0>(t); } };

// a user's own serializer
struct Rec : checkpoint::BaseSerializer {
  Rec() : checkpoint::BaseSerializer(checkpoint::eSerializationMode::Packing) {}
  void contiguousBytes(void* p, std::size_t size, std::size_t n) { run(p, size * n); }
};
}
template <> struct checkpoint::ByteCopyNonIntrusive<wit::BN> { using isByteCopyable = std::true_type; };
using namespace wit;
#define K(N, ...) \
  extern "C" void ko_##N(__VA_ARGS__& v) { go(v); } \
  extern "C" void kr_##N(__VA_ARGS__& v) { Rec r; r | v; } \
  extern "C" std::size_t sz_##N(__VA_ARGS__& v) { return checkpoint::getSize(v); } \
  extern "C" void wr_##N(__VA_ARGS__& v, std::ostream& o) { checkpoint::serializeToStream(v, o); } \
  extern "C" void mn_##N(__VA_ARGS__& v) { auto r = checkpoint::serialize(v); }
// read into an existing object too
#define KR(N, ...) K(N, __VA_ARGS__) \
  extern "C" void rd_##N(std::istream& i) { auto p = checkpoint::deserializeFromStream<__VA_ARGS__>(i); } \
  extern "C" void mr_##N() { auto p = checkpoint::deserialize<__VA_ARGS__>(wit::input()); }
KR(long, long)
KR(bool, bool)
KR(char, char)
KR(short, unsigned short)
KR(float, float)
KR(ldbl, long double)
KR(wch, wchar_t)
KR(B, B)
KR(BM, BM)
KR(BD, BD)
KR(BN, BN)
KR(BS, BS)
KR(BI, BI)
KR(TF, TF)
KR(TP, TP)
KR(TN, TN)
KR(TE, TE)
KR(TC, TC)
KR(TA, TA)
K(TB, TB)
KR(TI, TI)
KR(E, E)
KR(color, Color)
KR(plain, Plain)
KR(vlong, std::vector<long>)
KR(vchar, std::vector<char>)
KR(vldbl, std::vector<long double>)
KR(vbool, std::vector<bool>)
KR(vBM, std::vector<BM>)
KR(vBD, std::vector<BD>)
KR(vBN, std::vector<BN>)
KR(vBS, std::vector<BS>)
KR(vBI, std::vector<BI>)
KR(vTF, std::vector<TF>)
KR(vTP, std::vector<TP>)
KR(vTN, std::vector<TN>)
KR(vTE, std::vector<TE>)
KR(vTC, std::vector<TC>)
KR(vTI, std::vector<TI>)
KR(vcolor, std::vector<Color>)
KR(along, std::array<long, 3>)
KR(aBM, std::array<BM, 3>)
KR(aTP, std::array<TP, 3>)
KR(acol, std::array<Color, 2>)
KR(vaBM, std::vector<std::array<BM, 2>>)
KR(str, std::string)
KR(lBM, std::list<BM>)
KR(lTP, std::list<TP>)
KR(dBM, std::deque<BM>)
KR(dTP, std::deque<TP>)
KR(sint, std::set<int>)
KR(miBM, std::map<int, BM>)
KR(miTP, std::map<int, TP>)
KR(umi, std::unordered_map<int, TN>)
KR(oBM, std::optional<BM>)
KR(oTP, std::optional<TP>)
KR(uBM, std::unique_ptr<BM>)
KR(uTP, std::unique_ptr<TP>)
KR(pBB, std::pair<BM, BN>)
KR(pBT, std::pair<BM, TP>)
KR(tBT, std::tuple<int, BM, TP, Color>)
KR(dur, std::chrono::duration<long, std::milli>)
KR(varbb, std::variant<int, BM>)
KR(varii, std::variant<int, double, char>)
KR(varbn, std::variant<BN, BS>)
KR(varbt, std::variant<BM, TP>)
KR(vartt, std::variant<TP, TN>)
KR(varbc, std::variant<int, Color>)
KR(varvv, std::variant<int, std::variant<char, BM>>)
KR(varvt, std::variant<int, std::variant<char, TP>>)
KR(vvarbb, std::vector<std::variant<int, BM>>)
KR(vvarbt, std::vector<std::variant<BM, TP>>)
KR(avarbb, std::array<std::variant<int, double>, 2>)
KR(ovarbb, std::optional<std::variant<int, BM>>)
