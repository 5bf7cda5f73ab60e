#include "wit.h"
#include <sstream>
#include <fstream>
using namespace wit;
// streams handed over as what they are rather than as their base class
#define WIT_S(N, S, ...) \
  extern "C" void ob_##N(__VA_ARGS__& v) { wit::obs<__VA_ARGS__>(v); } \
  extern "C" std::size_t sz_##N(__VA_ARGS__& v) { return checkpoint::getSize(v); } \
  extern "C" void wr_##N(__VA_ARGS__& v, S& o) { checkpoint::serializeToStream(v, o); } \
  extern "C" void rd_##N(S& i) { auto p = checkpoint::deserializeFromStream<__VA_ARGS__>(i); wit::obs<__VA_ARGS__>(*p); } \
  extern "C" void ip_##N(S& i, __VA_ARGS__& old) { checkpoint::deserializeInPlaceFromStream(i, &old); wit::obs<__VA_ARGS__>(old); }
WIT_S(ssint, std::stringstream, int)
WIT_S(ssvE, std::stringstream, std::vector<E>)
WIT_S(ssstr, std::stringstream, std::string)
WIT_S(fsG, std::fstream, G)
WIT_S(fsmiE, std::fstream, std::map<int, E>)
WIT_S(ioM, std::iostream, M)
// two objects on one stream, read back in the same order
extern "C" void ob_two(std::pair<E, std::string>& v) { wit::obs<E>(v.first); wit::obs<std::string>(v.second); }
extern "C" void wr_two(std::pair<E, std::string>& v, std::ostream& o) { checkpoint::serializeToStream(v.first, o); checkpoint::serializeToStream(v.second, o); }
extern "C" void rd_two(std::istream& i) {
  auto p = checkpoint::deserializeFromStream<E>(i);
  auto q = checkpoint::deserializeFromStream<std::string>(i);
  wit::obs<E>(*p); wit::obs<std::string>(*q);
}
