// COVER: own
// BOUNDS: FixedUnorderedSet with 65540 entries: concrete keys, lookups, erasure and re-insertion around entry 65535
#include "huge.h"
#include "fixed_containers/fixed_unordered_set.hpp"
using namespace fixed_containers;
struct HI { u64 operator()(u32 k) const { return u64(k) << 8 | (k & 0xff); } };
VF_ENTRY(huge) { huge::assoc<false, FixedUnorderedSet<u32, huge::N, HI>>([](u32 k) { return k; }); }
