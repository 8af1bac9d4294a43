// COVER: own
// BOUNDS: FixedMap of non-trivial keys and values, capacity 3: any 0-3 entries with symbolic keys and values, one inserting operation with lvalue, rvalue and own arguments and a symbolic key and value; one inserting operation with elements that have both a two-argument and a list constructor, or that are constructible from anything; keys that are equivalent but distinguishable, 1-3 entries, every inserting operation with an equivalent key
#include "greedy.h"
#include "tagged.h"
#include "args_maps.h"
#include "fixed_containers/fixed_map.hpp"
using namespace fixed_containers;
VF_ENTRY(args_pool__w6) { args::run<FixedMap<NT, NT, 3>, 3, true>(); }
VF_ENTRY(args_contiguous__w6) { args::run<FixedMap<NT, NT, 3, std::less<NT>, fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::DEDICATED_COLOR, FixedIndexBasedContiguousStorage>, 3, true>(); }
VF_ENTRY(greedy) { greedy::map<FixedMap<greedy::G, greedy::G, 3>>(); }
VF_ENTRY(greedy_contiguous) { greedy::map<FixedMap<greedy::G, greedy::G, 3, std::less<greedy::G>, fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::DEDICATED_COLOR, FixedIndexBasedContiguousStorage>>(); }
VF_ENTRY(any_values) { greedy::any_map<FixedMap<u16, greedy::A, 3>>(u16{3}, u16{5}); }
VF_ENTRY(tagged__w2) { tagged::map<FixedMap<tagged::K, u16, 3, tagged::Less>, 3>(); }
VF_ENTRY(tagged_contiguous__w2) { tagged::map<FixedMap<tagged::K, u16, 3, tagged::Less, fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::DEDICATED_COLOR, FixedIndexBasedContiguousStorage>, 3>(); }
