// BOUNDS: tracked keys and values at capacity 260: 255, 256 and 260 entries, ascending and scattered insertion order, one operation of every kind with keys and positions at which narrow integers wrap, then destruction; FixedMap, FixedSet, FixedUnorderedMap, FixedUnorderedSet
#define VF_BIG 260
#include "assoc_life.h"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
using namespace fixed_containers;
constexpr size_t N = VF_BIG;
struct HBig { u64 operator()(const Tr& k) const { return u64(k.get()) << 8 | (k.get() & 0xff); } };
using OM = FixedMap<Tr, Tr, N>;
using OS = FixedSet<Tr, N>;
using UM = FixedUnorderedMap<Tr, Tr, N, HBig, std::equal_to<Tr>, 300>;
using US = FixedUnorderedSet<Tr, N, HBig, std::equal_to<Tr>, 260>;
VF_ENTRY(big_map_a__w7) { one<Asc, OM>(0, 0, 0, INSERT_L, WRITE); }
VF_ENTRY(big_map_b__w7) { one<Asc, OM>(0, 0, 0, ERASE_KEY, LOOKUP); }
VF_ENTRY(big_set_a__w7) { one<Asc, OS>(0, 0, 0, INSERT_L, WRITE); }
VF_ENTRY(big_set_b__w7) { one<Asc, OS>(0, 0, 0, ERASE_KEY, LOOKUP); }
VF_ENTRY(big_umap_a__w7) { one<Ins, UM>(0, 0, 0, INSERT_L, WRITE); }
VF_ENTRY(big_umap_b__w7) { one<Ins, UM>(0, 0, 0, ERASE_KEY, LOOKUP); }
VF_ENTRY(big_uset_a__w7) { one<Ins, US>(0, 0, 0, INSERT_L, WRITE); }
VF_ENTRY(big_uset_b__w7) { one<Ins, US>(0, 0, 0, ERASE_KEY, LOOKUP); }
