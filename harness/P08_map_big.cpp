// BOUNDS: capacity 260: 255, 256 and 260 entries inserted in ascending, descending and scattered order; one operation with present and absent keys and positions at which narrow integers wrap, symbolic values
#define VF_BIG 260
#include "assoc_ops.h"
#include "fixed_containers/fixed_map.hpp"
using namespace fixed_containers;
using namespace assoc;
using fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness;
constexpr size_t N = VF_BIG;
using P = FixedMap<u16, u16, N>;
using D = FixedMap<NT, NT, N, std::less<NT>, RedBlackTreeNodeColorCompactness::DEDICATED_COLOR, FixedIndexBasedContiguousStorage>;
VF_ENTRY(big_pool_a__w5) { run<Asc, P>(0, 0, 2, INSERT_L, INSERT_HINT, 1); }
VF_ENTRY(big_pool_b__w5) { run<Asc, P>(0, 0, 2, SUB_L, WRITE, 1); }
VF_ENTRY(big_pool_c__w5) { run<Asc, P>(0, 0, 2, ERASE_KEY, LOOKUP, 1); }
VF_ENTRY(big_cont_a__w5) { run<Asc, D>(0, 0, 2, INSERT_L, INSERT_HINT, 1); }
VF_ENTRY(big_cont_c__w5) { run<Asc, D>(0, 0, 2, ERASE_KEY, LOOKUP, 1); }
