// The footprint a value must have, computed from the value alone.
#ifndef FP_H
#define FP_H
#include "wit.h"
#include <atomic>
#include <functional>
#include <memory>
#include <stack>
#include <thread>
namespace wit {
template <typename T, typename = void> struct Fp;
template <typename T> std::size_t fp(T const& t) { return Fp<std::remove_cv_t<T>>::of(t); }

// lets a class enumerate its own members
struct Members {
  std::size_t n = 0;
  template <typename T> Members& operator|(T& t) { n += fp(t); return *this; }
};
template <typename T, typename = void> struct HasMember : std::false_type {};
template <typename T> struct HasMember<T, std::void_t<decltype(std::declval<T&>().serialize(std::declval<Members&>()))>> : std::true_type {};
template <typename T, typename = void> struct HasFree : std::false_type {};
template <typename T> struct HasFree<T, std::void_t<decltype(serialize(std::declval<Members&>(), std::declval<T&>()))>> : std::true_type {};

// arithmetic types, enumerations, byte-copied classes and classes that cannot
// be traversed have their own size; others that of their members
template <typename T, typename> struct Fp {
  static std::size_t of(T const& t) {
    if constexpr (HasMember<T>::value) { Members m; const_cast<T&>(t).serialize(m); return m.n; }
    else if constexpr (HasFree<T>::value) { Members m; serialize(m, const_cast<T&>(t)); return m.n; }
    else return sizeof(T);
  }
};
template <typename C> std::size_t fpAll(C const& c) { std::size_t n = sizeof(C); for (auto const& e : c) n += fp(e); return n; }
template <typename T, typename A> struct Fp<std::vector<T, A>> { static std::size_t of(std::vector<T, A> const& c) {
  std::size_t n = sizeof(c); for (std::size_t i = 0; i < c.size(); i++) n += fp(c[i]); return n + sizeof(T) * (c.capacity() - c.size()); } };
template <typename A> struct Fp<std::vector<bool, A>> { static std::size_t of(std::vector<bool, A> const& c) { return sizeof(c); } };
template <typename... R> struct Fp<std::basic_string<char, R...>> { static std::size_t of(std::basic_string<char, R...> const& c) { return sizeof(c) + c.capacity(); } };
template <typename T, std::size_t N> struct Fp<std::array<T, N>> { static std::size_t of(std::array<T, N> const& c) { std::size_t n = 0; for (std::size_t i = 0; i < N; i++) n += fp(c[i]); return n; } };
#define FP_ALL(C) template <typename... R> struct Fp<C<R...>> { static std::size_t of(C<R...> const& c) { return fpAll(c); } };
FP_ALL(std::list) FP_ALL(std::deque) FP_ALL(std::set) FP_ALL(std::multiset) FP_ALL(std::map) FP_ALL(std::multimap)
FP_ALL(std::unordered_set) FP_ALL(std::unordered_multiset) FP_ALL(std::unordered_map) FP_ALL(std::unordered_multimap)
// their elements cannot be reached without changing them
#define FP_SIZE(C) template <typename T, typename... R> struct Fp<C<T, R...>> { static std::size_t of(C<T, R...> const& c) { return sizeof(c) + sizeof(T) * c.size(); } };
FP_SIZE(std::queue) FP_SIZE(std::priority_queue) FP_SIZE(std::stack)
template <typename A, typename B> struct Fp<std::pair<A, B>> { static std::size_t of(std::pair<A, B> const& p) { return sizeof(p) + fp(p.first) + fp(p.second); } };
template <typename... R> struct Fp<std::tuple<R...>> { static std::size_t of(std::tuple<R...> const& t) { return std::apply([](auto const&... x) { return (std::size_t{0} + ... + fp(x)); }, t); } };
template <typename T> struct Fp<std::optional<T>> { static std::size_t of(std::optional<T> const& t) { return sizeof(t) + (t.has_value() ? sizeof(T) : 0); } };
template <typename T> std::size_t fpPtr(std::size_t own, T const* p) { if (p == nullptr) return own; return own + fp(*p); }
template <typename T, typename D> struct Fp<std::unique_ptr<T, D>> { static std::size_t of(std::unique_ptr<T, D> const& t) { return fpPtr(sizeof(t), t.get()); } };
template <typename T> struct Fp<std::shared_ptr<T>> { static std::size_t of(std::shared_ptr<T> const& t) { return fpPtr(sizeof(t), t.get()); } };
template <typename T> struct Fp<T*> { static std::size_t of(T* const& t) { return fpPtr(sizeof(t), t); } };
#define FP_OPAQUE(P) template <> struct Fp<P*> { static std::size_t of(P* const& t) { return sizeof(t); } };
FP_OPAQUE(void) FP_OPAQUE(FILE) FP_OPAQUE(ompi_communicator_t) FP_OPAQUE(ompi_group_t) FP_OPAQUE(ompi_request_t) FP_OPAQUE(ompi_win_t)
template <typename R, typename... A> struct Fp<std::function<R(A...)>> { static std::size_t of(std::function<R(A...)> const& t) { return sizeof(t); } };
template <typename... R> struct Fp<std::variant<R...>> {
  static constexpr bool bytes = (... && (std::is_arithmetic<R>::value || std::is_same<R, B>::value));
  template <std::size_t I> static std::size_t at(std::variant<R...> const& t) {
    if constexpr (I == sizeof...(R)) return 0;
    else return t.index() == I ? fp(std::get<I>(t)) : at<I + 1>(t);
  }
  static std::size_t of(std::variant<R...> const& t) { if constexpr (bytes) return sizeof(t); else return sizeof(std::size_t) + at<0>(t); }
};
}
#undef WIT
#undef WIT_N
#define WIT(N, ...) \
  extern "C" std::size_t fp_##N(__VA_ARGS__& v, std::size_t off) { return checkpoint::getMemoryFootprint(v, off); } \
  extern "C" std::size_t fo_##N(__VA_ARGS__& v, std::size_t off) { return off + std::max(wit::fp(v), sizeof(v)); }
#define WIT_N WIT
#endif
