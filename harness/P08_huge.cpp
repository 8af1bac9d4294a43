// COVER: own
// BOUNDS: FixedMap with 65540 entries: concrete keys, symbolic values around entry 65535, lookups, erasure and re-insertion there
#include "huge.h"
#include "fixed_containers/fixed_map.hpp"
using namespace fixed_containers;
VF_ENTRY(huge) { huge::assoc<true, FixedMap<u32, u16, huge::N>>([](u32 k) { return k; }); }
