#include "fp.h"
#include "wrap.cc"
