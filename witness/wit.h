// Witness translation units: they instantiate the public API of the library on
// types whose constructors, destructors and callbacks are opaque (declared
// only).  They are compiled to LLVM IR and analysed; they are never linked or
// run.
#ifndef WIT_H
#define WIT_H
#include "checkpoint/serializers/sizer.cc"
#include <checkpoint/checkpoint.h>
#include <iostream>
#include <sstream>

namespace wit {

// ---- opaque observations --------------------------------------------------
void see(unsigned long) noexcept;
void see_i(long) noexcept;
void see_f(double) noexcept;
void see_p(void const*) noexcept;
void see_kind(int) noexcept;
void visit(void const*, int);
char* input() noexcept;
char* outbuf(std::size_t) noexcept;
char* place() noexcept;
bool flag(int) noexcept;

// ---- opaque classes -------------------------------------------------------
// an ordinary value class with user code in every special member
struct E {
  long a; int b; int c;
  E(); E(E const&); E(E&&); E& operator=(E const&); E& operator=(E&&); ~E();
  bool operator<(E const&) const noexcept; bool operator==(E const&) const noexcept;
  template <typename S> void serialize(S& s) { visit(this, 1); s | a; s | b; s | c; }
};
struct EHash { std::size_t operator()(E const&) const noexcept; };
struct ELess { bool operator()(E const&, E const&) const noexcept; };

// no default constructor: recreated by a member function
struct M {
  long a; int b; int c;
  M(int); M(M const&); M(M&&); M& operator=(M const&); M& operator=(M&&); ~M();
  static M& reconstruct(void* p) { return *new (p) M(7); }
  template <typename S> void serialize(S& s) { visit(this, 2); s | a; s | b; s | c; }
};

// recreated by a dedicated constructor
struct G {
  long a; int b; int c;
  explicit G(checkpoint::SERIALIZE_CONSTRUCT_TAG);
  G(G const&); G(G&&); G& operator=(G const&); G& operator=(G&&); ~G();
  template <typename S> void serialize(S& s) { visit(this, 3); s | a; s | b; s | c; }
};

// byte-copied
struct B {
  using isByteCopyable = std::true_type;
  long x; int y; int z;
};

enum struct Color : unsigned char { Red, Green, Blue };
enum Plain : int { P0, P1 };
enum struct Wide : unsigned long { W0, W1 = 0x123456789abcul };
enum struct Neg : signed char { N0 = -7, N1 };

// ---- observing every part of a value --------------------------------------
template <typename T, typename = void> struct Obs;
template <typename T> void obs(T const& t) { Obs<T>::of(t); }

template <typename T> struct Obs<T, std::enable_if_t<std::is_integral<T>::value>> { static void of(T const& t) { see(static_cast<unsigned long>(t)); } };
template <typename T> struct Obs<T, std::enable_if_t<std::is_enum<T>::value>> { static void of(T const& t) { see(static_cast<unsigned long>(t)); } };
template <> struct Obs<double> { static void of(double const& t) { see_f(t); } };
template <> struct Obs<float> { static void of(float const& t) { see_f(t); } };
template <> struct Obs<B> { static void of(B const& t) { see(t.x); see(t.y); see(t.z); } };
template <> struct Obs<E> { static void of(E const& t) { see(t.a); see(t.b); see(t.c); } };
template <> struct Obs<M> { static void of(M const& t) { see(t.a); see(t.b); see(t.c); } };
template <> struct Obs<G> { static void of(G const& t) { see(t.a); see(t.b); see(t.c); } };
template <typename R, typename P> struct Obs<std::chrono::duration<R, P>> { static void of(std::chrono::duration<R, P> const& t) { obs(t.count()); } };

template <typename C> void obsAll(C const& c) { see(c.size()); for (auto const& e : c) obs(e); }
template <typename T, typename A> struct Obs<std::vector<T, A>> { static void of(std::vector<T, A> const& c) { obsAll(c); } };
template <typename A> struct Obs<std::vector<bool, A>> { static void of(std::vector<bool, A> const& c) { see(c.size()); for (bool b : c) see(b); } };
template <typename T, typename A> struct Obs<std::list<T, A>> { static void of(std::list<T, A> const& c) { obsAll(c); } };
template <typename T, typename A> struct Obs<std::deque<T, A>> { static void of(std::deque<T, A> const& c) { obsAll(c); } };
template <typename T, typename D> struct Obs<std::queue<T, D>> {
  struct Acc : std::queue<T, D> { static D const& get(std::queue<T, D> const& q) { return static_cast<Acc const&>(q).c; } };
  static void of(std::queue<T, D> const& q) { obs(Acc::get(q)); }
};
template <typename T, std::size_t N> struct Obs<std::array<T, N>> { static void of(std::array<T, N> const& c) { for (std::size_t i = 0; i < N; i++) obs(c[i]); } };
template <typename T, typename... R> struct Obs<std::basic_string<T, R...>> { static void of(std::basic_string<T, R...> const& c) { see(c.size()); for (std::size_t i = 0; i < c.size(); i++) obs(c.data()[i]); } };
template <typename K, typename... R> struct Obs<std::set<K, R...>> { static void of(std::set<K, R...> const& c) { obsAll(c); } };
template <typename K, typename... R> struct Obs<std::multiset<K, R...>> { static void of(std::multiset<K, R...> const& c) { obsAll(c); } };
template <typename K, typename... R> struct Obs<std::map<K, R...>> { static void of(std::map<K, R...> const& c) { obsAll(c); } };
template <typename K, typename... R> struct Obs<std::multimap<K, R...>> { static void of(std::multimap<K, R...> const& c) { obsAll(c); } };
template <typename K, typename... R> struct Obs<std::unordered_set<K, R...>> { static void of(std::unordered_set<K, R...> const& c) { obsAll(c); } };
template <typename K, typename... R> struct Obs<std::unordered_multiset<K, R...>> { static void of(std::unordered_multiset<K, R...> const& c) { obsAll(c); } };
template <typename K, typename... R> struct Obs<std::unordered_map<K, R...>> { static void of(std::unordered_map<K, R...> const& c) { obsAll(c); } };
template <typename K, typename... R> struct Obs<std::unordered_multimap<K, R...>> { static void of(std::unordered_multimap<K, R...> const& c) { obsAll(c); } };
template <typename A, typename C> struct Obs<std::pair<A, C>> { static void of(std::pair<A, C> const& t) { Obs<std::remove_cv_t<A>>::of(t.first); obs(t.second); } };
template <typename... R> struct Obs<std::tuple<R...>> { static void of(std::tuple<R...> const& t) { std::apply([](auto const&... x) { (obs(x), ...); }, t); } };
template <typename T> struct Obs<std::optional<T>> { static void of(std::optional<T> const& t) { see(t.has_value()); if (t.has_value()) obs(*t); } };
template <typename T, typename D> struct Obs<std::unique_ptr<T, D>> { static void of(std::unique_ptr<T, D> const& t) { see(t != nullptr); if (t) obs(*t); } };
template <typename... R> struct Obs<std::variant<R...>> {
  template <std::size_t I> static void at(std::variant<R...> const& t) { if (t.index() == I) obs(std::get<I>(t)); }
  template <std::size_t... I> static void all(std::variant<R...> const& t, std::index_sequence<I...>) { (at<I>(t), ...); }
  static void of(std::variant<R...> const& t) { if (t.index() >= sizeof...(R)) __builtin_unreachable(); see(t.index()); all(t, std::index_sequence_for<R...>{}); }
};

} // namespace wit

// ---- entry points ---------------------------------------------------------
// ob: the state of the source       wr/mw/fw: written to a stream/memory/file
// rd/mr/fr: a fresh object read     ip/mi/fi: read into an existing object
// sz: measured                      fp: footprint
#define WIT_SRC(N, ...) \
  extern "C" void ob_##N(__VA_ARGS__& v) { wit::obs<__VA_ARGS__>(v); } \
  extern "C" std::size_t sz_##N(__VA_ARGS__& v) { return checkpoint::getSize(v); } \
  extern "C" void wr_##N(__VA_ARGS__& v, std::ostream& o) { checkpoint::serializeToStream(v, o); } \
  extern "C" std::size_t mw_##N(__VA_ARGS__& v) { auto r = checkpoint::serialize(v, [](std::size_t n) -> char* { return wit::outbuf(n); }); return r->getSize(); }
#define WIT_NEW(N, ...) \
  extern "C" void rd_##N(std::istream& i) { auto p = checkpoint::deserializeFromStream<__VA_ARGS__>(i); wit::obs<__VA_ARGS__>(*p); } \
  extern "C" void mr_##N() { auto p = checkpoint::deserialize<__VA_ARGS__>(wit::input()); wit::obs<__VA_ARGS__>(*p); }
#define WIT_INP(N, ...) \
  extern "C" void ip_##N(std::istream& i, __VA_ARGS__& old) { checkpoint::deserializeInPlaceFromStream(i, &old); wit::obs<__VA_ARGS__>(old); } \
  extern "C" void mi_##N(char* dummy, __VA_ARGS__& old) { checkpoint::deserializeInPlace(wit::input(), &old); wit::obs<__VA_ARGS__>(old); }
#define WIT_FP(N, ...) \
  extern "C" std::size_t fp_##N(__VA_ARGS__& v, std::size_t off) { return checkpoint::getMemoryFootprint(v, off); }
// in-place reading into nested containers is analysed by other means
#define WIT_N(N, ...) WIT_SRC(N, __VA_ARGS__) WIT_NEW(N, __VA_ARGS__) WIT_FP(N, __VA_ARGS__)
#define WIT(N, ...) WIT_SRC(N, __VA_ARGS__) WIT_NEW(N, __VA_ARGS__) WIT_INP(N, __VA_ARGS__) WIT_FP(N, __VA_ARGS__)
#endif
