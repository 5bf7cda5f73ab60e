#include "fp.h"
#include "deep.cc"
