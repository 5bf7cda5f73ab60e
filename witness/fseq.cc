#include "fp.h"
#include "seq.cc"
