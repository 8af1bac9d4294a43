// COVER: own
// BOUNDS: FixedCircularDeque of non-trivial and of move-only elements, capacity 3: any 0-3 symbolic elements, one inserting operation at any position with an lvalue, an rvalue, a one-element range or constructor arguments; one inserting operation with elements that have both a two-argument and a list constructor, or that are constructible from anything
#include "greedy.h"
#include "args_seq.h"
#include "fixed_containers/fixed_circular_deque.hpp"
using namespace fixed_containers;
VF_ENTRY(args_copy__w6) { args::copyable<FixedCircularDeque<NT, 3>, seq::Kind::CIRCULAR, 3>(); }
VF_ENTRY(args_move__w6) { args::move_only<FixedCircularDeque<args::MO, 3>, seq::Kind::CIRCULAR, 3>(); }
VF_ENTRY(args_move_whole__w6) { args::move_only_whole<FixedCircularDeque<args::MO, 3>, 3>(); }
VF_ENTRY(greedy) { greedy::seq<FixedCircularDeque<greedy::G, 3>>(); }
VF_ENTRY(any_elements) { greedy::any_seq<FixedCircularDeque<greedy::A, 3>>(); }
