// COVER: own
// BOUNDS: EnumMap whose values are references (const u16&): every history of 3 operations over 3 keys and 3 referents with symbolic contents
#include "ref_maps.h"
#include "fixed_containers/enum_map.hpp"
#include "enum_types.h"
using namespace fixed_containers;
template <class V> using M = EnumMap<R3, V>;
VF_ENTRY(ref_const__w4) { refs::run<M<const u16&>>([](size_t k) { return assoc::mk<R3>(static_cast<u16>(k)); }, 3); }
