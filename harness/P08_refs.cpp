// COVER: own
// BOUNDS: FixedMap whose values are references (const u16&): every history of 3 operations over 3 keys and 3 referents with symbolic contents
#include "ref_maps.h"
#include "fixed_containers/fixed_map.hpp"

using namespace fixed_containers;
template <class V> using M = FixedMap<u16, V, 3>;
VF_ENTRY(ref_const__w4) { refs::run<M<const u16&>>([](size_t k) { return static_cast<u16>(7 * k + 1); }, 3); }
