#include "wit.h"
// the number the n-th registered type gets, whatever n is
namespace wit { struct Fresh; }
using namespace wit;
extern "C" unsigned reg_() { checkpoint::dispatch::typeregistry::Registrar<Fresh*> r; return r.index; }
extern "C" bool reg_ok() { checkpoint::dispatch::typeregistry::Registrar<Fresh*> r; return checkpoint::dispatch::typeregistry::validateIndex(r.index); }
