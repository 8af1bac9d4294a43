// COVER: own
// BOUNDS: EnumMap of non-trivial values over 3 constants: any 0-3 entries with symbolic values, one inserting operation with lvalue, rvalue and own arguments and a symbolic value; one inserting operation with values that have both a two-argument and a list constructor, or that are constructible from anything
#include "greedy.h"
#include "args_maps.h"
#include "fixed_containers/enum_map.hpp"
#include "enum_types.h"
using namespace fixed_containers;
VF_ENTRY(args_enum__w6) { args::run<EnumMap<R3, NT>, 3, false>(); }
VF_ENTRY(greedy_enum) { greedy::enum_map<EnumMap<EC, greedy::G>>(EC::B, EC::D); }
VF_ENTRY(greedy_rich_enum) { greedy::enum_map<EnumMap<R3, greedy::G>>(R3::C_TWO(), R3::C_FOUR()); }
VF_ENTRY(any_values) { greedy::any_map<EnumMap<EC, greedy::A>>(EC::B, EC::D); }
