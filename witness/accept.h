// What every accept/reject program starts from (precompiled).
#include <checkpoint/checkpoint.h>
#include <array>
#include <any>
#include <atomic>
#include <bitset>
#include <chrono>
#include <complex>
#include <cstdio>
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <queue>
#include <set>
#include <sstream>
#include <stack>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <valarray>
#include <variant>
#include <vector>

namespace acc {

// supported
struct Ok { int a = 0; template <typename S> void serialize(S& s) { s | a; } };
struct OkFree { int a = 0; };
template <typename S> void serialize(S& s, OkFree& t) { s | t.a; }
struct OkByte { using isByteCopyable = std::true_type; int a; };
struct OkDerBC : checkpoint::SerdesByteCopy { int a; };
enum struct OkEnum : char { A, B };
struct OkSplit {
  int a;
  template <typename S> void serialize(S& s) { s | a; }
};

// not supported: nothing says how
struct Plain { int a = 0; char c = 0; };
struct Empty {};
struct NoByte { using isByteCopyable = std::false_type; int a = 0; };
struct FalseByte { static constexpr bool isByteCopyable = true; int a = 0; };
union Uni { int a; float f; };
struct WrongArity { int a = 0; template <typename S> void serialize(S& s, int) { s | a; } };
struct WrongConst { int a = 0; void serialize() {} };
struct Private { private: int a = 0; template <typename S> void serialize(S& s) { s | a; } };
struct OtherSer { struct Arch {}; int a = 0; void serialize(Arch&) {} };
struct HasOp { int a = 0; operator int() const { return a; } };
struct FromInt { int a = 0; FromInt() = default; FromInt(int i) : a(i) {} };
struct Poly { virtual ~Poly() = default; int a = 0; };
struct OnlyParent { int a = 0; template <typename S> void serializeParent(S&) {} };
struct HoldsPtr { int* p = nullptr; template <typename S> void serialize(S& s) { s | p; } };
struct HoldsPlain { Plain p; template <typename S> void serialize(S& s) { s | p; } };
struct HoldsArr { Plain p[2]; template <typename S> void serialize(S& s) { s | p; } };
struct DerPlain : Plain { };
struct Agg { int a; double b; };
template <typename T> struct Tmpl { T t{}; };
template <typename T> struct Holder { T t; template <typename S> void serialize(S& s) { s | t; } };
template <typename T> struct HolderNI { T t; };
template <typename S, typename T> void serialize(S& s, HolderNI<T>& h) { s | h.t; }
template <typename T> struct HolderArr { T t[2]; template <typename S> void serialize(S& s) { checkpoint::dispatch::serializeArray(s, t, 2); } };

// ways of construction
struct NoCons { NoCons(int) {} int a = 0; template <typename S> void serialize(S& s) { s | a; } };
struct DelCons { DelCons() = delete; DelCons(int) {} int a = 0; template <typename S> void serialize(S& s) { s | a; } };
struct PrivCons { private: PrivCons() {} public: PrivCons(int) {} int a = 0; template <typename S> void serialize(S& s) { s | a; } };
struct BadRecon { BadRecon(int) {} static int reconstruct(int) { return 0; } int a = 0; template <typename S> void serialize(S& s) { s | a; } };
struct TagCons { TagCons(checkpoint::SERIALIZE_CONSTRUCT_TAG) {} int a = 0; template <typename S> void serialize(S& s) { s | a; } };
struct ReconCons { ReconCons(int) {} static ReconCons& reconstruct(void* b) { return *new (b) ReconCons(1); } int a = 0; template <typename S> void serialize(S& s) { s | a; } };
struct NIReconCons { NIReconCons(int) {} int a = 0; template <typename S> void serialize(S& s) { s | a; } };
inline void reconstruct(NIReconCons*& p, void* b) { p = new (b) NIReconCons(1); }
struct AbstractOne { virtual ~AbstractOne() = default; virtual void f() = 0; int a = 0; template <typename S> void serialize(S& s) { s | a; } };
struct VirtPlain { explicit VirtPlain(int) {} virtual ~VirtPlain() = default; int a = 0; template <typename S> void serialize(S& s) { s | a; } };
struct ByteNoCons { using isByteCopyable = std::true_type; ByteNoCons(int) {} int a = 0; };

}
