#include "wit.h"
using namespace wit;
WIT(miE, std::map<int, E>)
WIT(mEs, std::map<E, std::string>)
WIT(mmiE, std::multimap<int, E>)
WIT(sint, std::set<int>)
WIT(sE, std::set<E>)
WIT(msE, std::multiset<E>)
WIT(umiE, std::unordered_map<int, E>)
WIT(ummiE, std::unordered_multimap<int, E>)
WIT(usint, std::unordered_set<int>)
WIT(umsE, std::unordered_multiset<E, EHash>)
WIT(miv, std::map<int, std::vector<int>>)
