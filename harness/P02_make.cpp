// COVER: own
// BOUNDS: make_fixed_deque of 0, 1, 3 and 4 symbolic elements
#include "make_seq.h"
#include "fixed_containers/fixed_deque.hpp"
using namespace fixed_containers;
using seq::Kind;
MAKERS(Kind::DEQUE, make_fixed_deque)
