// COVER: own
// BOUNDS: make_fixed_list of 0, 1, 3 and 4 symbolic elements
#include "make_seq.h"
#include "fixed_containers/fixed_list.hpp"
using namespace fixed_containers;
using seq::Kind;
MAKERS(Kind::LIST, make_fixed_list)
