// COVER: own
// BOUNDS: FixedSet with 65540 entries: concrete keys, lookups, erasure and re-insertion around entry 65535
#include "huge.h"
#include "fixed_containers/fixed_set.hpp"
using namespace fixed_containers;
VF_ENTRY(huge) { huge::assoc<false, FixedSet<u32, huge::N>>([](u32 k) { return k; }); }
