#include "fp.h"
#include "assoc.cc"
