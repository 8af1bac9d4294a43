// COVER: own
// BOUNDS: FixedUnorderedMap of non-trivial keys and values, capacity 3: any 0-3 entries with symbolic keys and values, one inserting operation with lvalue, rvalue and own arguments and a symbolic key and value; one inserting operation with elements that have both a two-argument and a list constructor, or that are constructible from anything; keys that are equivalent but distinguishable, 1-3 entries, every inserting operation with an equivalent key
#include "greedy.h"
#include "tagged.h"
#include "args_maps.h"
#include "hash_types.h"
#include "fixed_containers/fixed_unordered_map.hpp"
using namespace fixed_containers;
VF_ENTRY(args_spread__w6) { args::run<FixedUnorderedMap<NT, NT, 3, H16>, 3, true>(); }
VF_ENTRY(args_flat__w6) { args::run<FixedUnorderedMap<NT, NT, 3, H0>, 3, true>(); }
VF_ENTRY(greedy) { greedy::map<FixedUnorderedMap<greedy::G, greedy::G, 3, greedy::HG>>(); }
VF_ENTRY(any_values) { greedy::any_map<FixedUnorderedMap<u16, greedy::A, 3>>(u16{3}, u16{5}); }
VF_ENTRY(tagged__w2) { tagged::map<FixedUnorderedMap<tagged::K, u16, 3, tagged::Hash, tagged::Eq>, 3>(); }
