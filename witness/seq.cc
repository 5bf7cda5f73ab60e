#include "wit.h"
using namespace wit;
WIT(vint, std::vector<int>)
WIT(vE, std::vector<E>)
WIT(vB, std::vector<B>)
WIT(vbool, std::vector<bool>)
WIT_N(vstr, std::vector<std::string>)
WIT_N(vvint, std::vector<std::vector<int>>)
WIT(vM, std::vector<M>)
WIT(lint, std::list<int>)
WIT(lE, std::list<E>)
WIT(lM, std::list<M>)
WIT(dint, std::deque<int>)
WIT(dE, std::deque<E>)
WIT(qint, std::queue<int>)
WIT(qE, std::queue<E>)
WIT(aint, std::array<int, 3>)
WIT(aE, std::array<E, 3>)
WIT(str, std::string)
