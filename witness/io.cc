#include "wit.h"
#include "checkpoint/buffer/io_buffer.cc"
using namespace wit;
#define WIT_F(N, ...) WIT_SRC(N, __VA_ARGS__) \
  extern "C" void fw_##N(__VA_ARGS__& v, std::string const& f) { checkpoint::serializeToFile<__VA_ARGS__>(v, f); } \
  extern "C" void fr_##N(char* dummy, std::string const& f) { auto p = checkpoint::deserializeFromFile<__VA_ARGS__>(f); wit::obs<__VA_ARGS__>(*p); } \
  extern "C" void fi_##N(std::string const& f, __VA_ARGS__& old) { checkpoint::deserializeInPlaceFromFile<__VA_ARGS__>(f, &old); wit::obs<__VA_ARGS__>(old); }
WIT_F(int, int)
WIT_F(E, E)
WIT_F(B, B)
WIT_F(M, M)
WIT_F(G, G)
WIT_F(vint, std::vector<int>)
WIT_F(vE, std::vector<E>)
WIT_F(lM, std::list<M>)
WIT_F(str, std::string)
WIT_F(miE, std::map<int, E>)
WIT_F(upE, std::unique_ptr<E>)
WIT_F(tup, std::tuple<int, E, std::string>)
