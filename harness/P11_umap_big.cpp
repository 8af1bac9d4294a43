// BOUNDS: capacity 260: 255, 256 and 260 entries inserted in ascending, descending and scattered order, bucket counts 260 and 300, hashes spread, all equal and equal in the bucket only; one operation with present and absent keys and positions at which narrow integers wrap, symbolic values
#define VF_BIG 260
#include "assoc_ops.h"
#include "hash_types.h"
#include "fixed_containers/fixed_unordered_map.hpp"
using namespace fixed_containers;
using namespace assoc;
constexpr size_t N = VF_BIG;
struct HC { u64 operator()(u16 k) const { return u64(k) << 8 | (k & 0xff); } };
template <class H, size_t B> using M = FixedUnorderedMap<u16, u16, N, H, std::equal_to<u16>, B>;
VF_ENTRY(big_flat_a__w5) { run<Ins, M<H0, 260>>(0, 0, 0, INSERT_L, INSERT_R, 1); }
VF_ENTRY(big_flat_c__w5) { run<Ins, M<H0, 300>>(0, 0, 0, ERASE_KEY, LOOKUP, 1); }
VF_ENTRY(big_spread_a__w5) { run<Ins, M<HC, 260>>(0, 0, 2, SUB_L, WRITE, 1); }
VF_ENTRY(big_spread_c__w5) { run<Ins, M<HC, 300>>(0, 0, 2, ERASE_KEY, LOOKUP, 1); }
VF_ENTRY(big_bucket_c__w5) { run<Ins, M<HF, 260>>(0, 0, 1, ERASE_KEY, LOOKUP, 1); }
