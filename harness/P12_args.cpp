// COVER: own
// BOUNDS: FixedUnorderedSet of non-trivial keys, capacity 3: any 0-3 symbolic keys, one inserting operation with an lvalue, rvalue or own argument; one inserting operation with elements that have both a two-argument and a list constructor, or that are constructible from anything; keys that are equivalent but distinguishable, 1-3 entries, every inserting operation with an equivalent key
#include "greedy.h"
#include "tagged.h"
#include "args_sets.h"
#include "hash_types.h"
#include "fixed_containers/fixed_unordered_set.hpp"
using namespace fixed_containers;
VF_ENTRY(args_spread__w6) { args::run_set<FixedUnorderedSet<NT, 3, H16>, 3>(); }
VF_ENTRY(args_flat__w6) { args::run_set<FixedUnorderedSet<NT, 3, H0>, 3>(); }
VF_ENTRY(greedy) { greedy::set<FixedUnorderedSet<greedy::G, 3, greedy::HG>>(); }
VF_ENTRY(any_keys)
{
    greedy::any_set<FixedUnorderedSet<greedy::A, 3, greedy::HA, greedy::EA>>([](const greedy::A (&l)[2]) { return make_fixed_unordered_set(l, greedy::HA{}, greedy::EA{}); });
}
VF_ENTRY(tagged__w2) { tagged::set<FixedUnorderedSet<tagged::K, 3, tagged::Hash, tagged::Eq>, 3>(); }
