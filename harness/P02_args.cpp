// COVER: own
// BOUNDS: FixedDeque of non-trivial and of move-only elements, capacity 3: any 0-3 symbolic elements, one inserting operation at any position with an lvalue, an rvalue, a one-element range or constructor arguments; one inserting operation with elements that have both a two-argument and a list constructor, or that are constructible from anything
#include "greedy.h"
#include "args_seq.h"
#include "fixed_containers/fixed_deque.hpp"
using namespace fixed_containers;
VF_ENTRY(args_copy__w6) { args::copyable<FixedDeque<NT, 3>, seq::Kind::DEQUE, 3>(); }
VF_ENTRY(args_move__w6) { args::move_only<FixedDeque<args::MO, 3>, seq::Kind::DEQUE, 3>(); }
VF_ENTRY(args_move_whole__w6) { args::move_only_whole<FixedDeque<args::MO, 3>, 3>(); }
VF_ENTRY(greedy) { greedy::seq<FixedDeque<greedy::G, 3>>(); }
VF_ENTRY(any_elements) { greedy::any_seq<FixedDeque<greedy::A, 3>>(); }
