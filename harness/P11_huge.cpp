// COVER: own
// BOUNDS: FixedUnorderedMap with 65540 entries: concrete keys, symbolic values around entry 65535, lookups, erasure and re-insertion there
#include "huge.h"
#include "fixed_containers/fixed_unordered_map.hpp"
using namespace fixed_containers;
struct HI { u64 operator()(u32 k) const { return u64(k) << 8 | (k & 0xff); } };
VF_ENTRY(huge) { huge::assoc<true, FixedUnorderedMap<u32, u16, huge::N, HI>>([](u32 k) { return k; }); }
