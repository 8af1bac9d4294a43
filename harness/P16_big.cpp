// BOUNDS: capacity 260 holding 255, 256 or 260 entries: every inserting call form and checked access with present and absent keys at which narrow integers wrap; FixedMap, FixedSet, FixedUnorderedMap, FixedUnorderedSet
#define VF_BIG 260
#include "assoc_misuse.h"
constexpr size_t N = VF_BIG;
struct HC { u64 operator()(u16 k) const { return u64(k) << 8 | (k & 0xff); } };
VF_ENTRY(big_map__w9) { misuse<Asc, OM<u16, u16, N>>(0); }
VF_ENTRY(big_set__w9) { misuse<Asc, OS<u16, N>>(0); }
VF_ENTRY(big_umap__w9) { misuse<Ins, UM<u16, N, HC, 300>>(0); }
VF_ENTRY(big_uset__w9) { misuse<Ins, US<u16, N, HC, 260>>(0); }
