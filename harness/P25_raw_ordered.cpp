// COVER: own
#include "raw_views.h"
// ---------------------------------------------------------------- ordered
using Cm = fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness;
using St = fixed_red_black_tree_detail::RedBlackTreeStorageType;
template <class K, Cm CM, template <class, size_t> class S> using OS = FixedSet<K, 4, std::less<K>, CM, S>;
template <class K, class V, Cm CM, template <class, size_t> class S> using OM = FixedMap<K, V, 4, std::less<K>, CM, S>;
template <class K, Cm CM, template <class, size_t> class S, St ST>
void oset(size_t lo, size_t hi)
{
    OS<K, CM, S> c{};
    Model<Asc> m;
    build(c, m, 0, 3, 1);
    if (lo != hi) apply(c, m, vf::pick(lo, hi, "op"));
    FixedRedBlackTreeRawView v(&c, sizeof(K), 4, CM, ST);
    elements(c, v);
}
template <class K, class V, Cm CM, template <class, size_t> class S, St ST>
void omap(size_t lo, size_t hi)
{
    OM<K, V, CM, S> c{};
    Model<Asc> m;
    build(c, m, 0, 3, 1);
    if (lo != hi) apply(c, m, vf::pick(lo, hi, "op"));
    FixedMapRawView v(&c, sizeof(K), alignof(K), sizeof(V), alignof(V), 4, CM, ST);
    entries(c, v);
}
#define POOL FixedIndexBasedPoolStorage, St::FIXED_INDEX_POOL
#define CONT FixedIndexBasedContiguousStorage, St::FIXED_INDEX_CONTIGUOUS
#define SETV(S, A, NAME, CMP, STO) VF_ENTRY(set_##NAME##_##S##_##A) { oset<B<S, A>, Cm::CMP, STO>(0, 0); }
SETV(1, 1, ep, EMBEDDED_COLOR, POOL)
SETV(3, 1, dp, DEDICATED_COLOR, POOL)
SETV(4, 4, ec, EMBEDDED_COLOR, CONT)
SETV(6, 2, dc, DEDICATED_COLOR, CONT)
SETV(8, 8, dp, DEDICATED_COLOR, POOL)
SETV(12, 4, ep, EMBEDDED_COLOR, POOL)
SETV(20, 4, dc, DEDICATED_COLOR, CONT)
SETV(24, 8, ec, EMBEDDED_COLOR, CONT)
VF_ENTRY(set_insert__w3) { oset<B<12, 4>, Cm::EMBEDDED_COLOR, POOL>(INSERT_L, INSERT_R); }
VF_ENTRY(set_erase__w3) { oset<B<12, 4>, Cm::DEDICATED_COLOR, POOL>(ERASE_KEY, CLEAR); }
#define MAPV(KS, KA, VS, VA, NAME, CMP, STO) VF_ENTRY(map_##NAME##_##KS##_##VS) { omap<B<KS, KA>, B<VS, VA>, Cm::CMP, STO>(0, 0); }
MAPV(1, 1, 1, 1, ep, EMBEDDED_COLOR, POOL)
MAPV(3, 1, 4, 4, dp, DEDICATED_COLOR, POOL)
MAPV(8, 8, 1, 1, ep, EMBEDDED_COLOR, POOL)
MAPV(1, 1, 8, 8, dp, DEDICATED_COLOR, POOL)
MAPV(4, 4, 12, 4, ec, EMBEDDED_COLOR, CONT)
MAPV(6, 2, 3, 1, dc, DEDICATED_COLOR, CONT)
MAPV(16, 8, 6, 2, ep, EMBEDDED_COLOR, POOL)
MAPV(2, 2, 24, 8, dp, DEDICATED_COLOR, POOL)
VF_ENTRY(map_insert__w3) { omap<B<3, 1>, B<12, 4>, Cm::EMBEDDED_COLOR, POOL>(INSERT_L, IOA_L); }
VF_ENTRY(map_erase__w3) { omap<B<12, 4>, B<3, 1>, Cm::DEDICATED_COLOR, POOL>(ERASE_KEY, CLEAR); }
// five nodes: deeper trees, so that the successor walk climbs more than one level
VF_ENTRY(set_five__w4)
{
    FixedSet<u16, 6> c{};
    Model<Asc> m;
    build(c, m, 5, 5, 0);
    FixedRedBlackTreeRawView v(&c, sizeof(u16), 6, Cm::EMBEDDED_COLOR, St::FIXED_INDEX_POOL);
    elements(c, v);
}
VF_ENTRY(map_reject)
{
    FixedMap<B<1, 1>, B<16, 16>, 2> c{};
    vf_expect_abort(1);
    FixedMapRawView v(&c, 1, 1, 16, 16, 2, Cm::EMBEDDED_COLOR, St::FIXED_INDEX_POOL);
    vf_expect_abort(0);
    vf::check(false, "an alignment the view does not support is reported");
}
