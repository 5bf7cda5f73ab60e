#include "wit.h"
using namespace wit;
WIT(vdbl, std::vector<double>)
WIT(vchar, std::vector<char>)
WIT(vcolor, std::vector<Color>)
WIT(acolor, std::array<Color, 2>)
WIT(vpair, std::vector<std::pair<int, double>>)
WIT_N(lstr, std::list<std::string>)
WIT_N(dvint, std::deque<std::vector<int>>)
WIT_N(astr, std::array<std::string, 2>)
WIT_N(vlint, std::vector<std::list<int>>)
WIT_N(mmap, std::map<int, std::map<int, E>>)
WIT_N(mstr, std::map<std::string, std::string>)
WIT_N(umstr, std::unordered_map<std::string, std::vector<double>>)
WIT_N(sstr, std::set<std::string>)
WIT_N(oup, std::optional<std::pair<int, std::string>>)
WIT_N(pupE, std::pair<std::unique_ptr<E>, std::unique_ptr<int>>)
WIT_N(upv, std::unique_ptr<std::vector<E>>)
WIT_N(ovar, std::optional<std::variant<int, E>>)
WIT_N(tt, std::tuple<std::tuple<int, Color>, std::pair<E, bool>, std::array<E, 2>>)
WIT_N(lM2, std::list<std::pair<int, B>>)
WIT_N(vG, std::vector<G>)
WIT_N(oG, std::optional<G>)
WIT_N(upG, std::unique_ptr<G>)
WIT_N(qvec, std::queue<std::vector<int>>)
WIT(durd, std::chrono::duration<double>)
