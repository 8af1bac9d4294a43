// COVER: own
// BOUNDS: FixedSet of non-trivial keys, capacity 3: any 0-3 symbolic keys, one inserting operation with an lvalue, rvalue or own argument; one inserting operation with elements that have both a two-argument and a list constructor, or that are constructible from anything; keys that are equivalent but distinguishable, 1-3 entries, every inserting operation with an equivalent key
#include "greedy.h"
#include "tagged.h"
#include "args_sets.h"
#include "fixed_containers/fixed_set.hpp"
using namespace fixed_containers;
VF_ENTRY(args_pool__w6) { args::run_set<FixedSet<NT, 3>, 3>(); }
VF_ENTRY(args_contiguous__w6) { args::run_set<FixedSet<NT, 3, std::less<NT>, fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::DEDICATED_COLOR, FixedIndexBasedContiguousStorage>, 3>(); }
VF_ENTRY(greedy) { greedy::set<FixedSet<greedy::G, 3>>(); }
VF_ENTRY(any_keys)
{
    greedy::any_set<FixedSet<greedy::A, 3, greedy::LA>>([](const greedy::A (&l)[2]) { return make_fixed_set(l, greedy::LA{}); });
}
VF_ENTRY(tagged__w2) { tagged::set<FixedSet<tagged::K, 3, tagged::Less>, 3>(); }
VF_ENTRY(tagged_contiguous__w2) { tagged::set<FixedSet<tagged::K, 3, tagged::Less, fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::DEDICATED_COLOR, FixedIndexBasedContiguousStorage>, 3>(); }
