#include "wit.h"
using namespace wit;
WIT(int, int)
WIT(double, double)
WIT(bool, bool)
WIT(B, B)
WIT(E, E)
WIT(color, Color)
WIT(plain, Plain)
WIT(wide, Wide)
WIT(neg, Neg)
WIT(long, long)
WIT(uchar, unsigned char)
WIT(ushort, unsigned short)
WIT(float, float)
WIT(tenum, std::tuple<Wide, Neg>)
WIT(vard, std::variant<Wide, double, Neg>)
WIT(durd, std::chrono::duration<double>)
WIT(durc, std::chrono::duration<signed char, std::ratio<60>>)
WIT(durw, std::chrono::nanoseconds)
WIT(owide, std::optional<Wide>)
WIT(oint, std::optional<int>)
WIT(oE, std::optional<E>)
WIT(oM, std::optional<M>)
WIT_N(ovint, std::optional<std::vector<int>>)
WIT_N(var, std::variant<int, E, std::string>)
WIT(varb, std::variant<int, double>)
WIT(upE, std::unique_ptr<E>)
WIT(upint, std::unique_ptr<int>)
WIT(upM, std::unique_ptr<M>)
WIT(tup, std::tuple<int, E, std::string>)
WIT(pair, std::pair<int, E>)
WIT(dur, std::chrono::duration<long, std::milli>)
WIT(mix, std::tuple<std::vector<int>, std::optional<E>, std::unique_ptr<E>>)
WIT_N(vup, std::vector<std::unique_ptr<E>>)
WIT(vopt, std::vector<std::optional<E>>)
