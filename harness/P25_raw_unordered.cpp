// COVER: own
#include "raw_views.h"
// ---------------------------------------------------------------- unordered
template <class K>
void uset(size_t lo, size_t hi)
{
    FixedUnorderedSet<K, 4, HBk<K>> c{};
    Model<Ins> m;
    build(c, m, 0, lo == hi ? 3 : 2, 1);
    if (lo != hi) apply(c, m, vf::pick(lo, hi, "op"));
    FixedUnorderedSetRawView v(&c, sizeof(K), alignof(K), 4);
    elements(c, v);
}
template <class K, class V>
void umap(size_t lo, size_t hi)
{
    FixedUnorderedMap<K, V, 4, HBk<K>> c{};
    Model<Ins> m;
    build(c, m, 0, lo == hi ? 3 : 2, 1);
    if (lo != hi) apply(c, m, vf::pick(lo, hi, "op"));
    FixedUnorderedMapRawView v(&c, sizeof(K), alignof(K), sizeof(V), alignof(V), 4);
    entries(c, v);
    using P = fixed_containers::MapEntry<K, V>;
    vf::check(FixedUnorderedMapRawView::compute_pair_size(sizeof(K), alignof(K), sizeof(V), alignof(V)) == sizeof(P), "pair size");
}
#define USET(S, A) VF_ENTRY(uset_##S##_##A) { uset<B<S, A>>(0, 0); }
USET(1, 1)
USET(3, 1)
USET(8, 8)
USET(12, 4)
USET(20, 4)
USET(24, 8)
USET(48, 16)
VF_ENTRY(uset_insert) { uset<B<20, 4>>(INSERT_L, INSERT_R); }
VF_ENTRY(uset_erase) { uset<B<20, 4>>(ERASE_KEY, CLEAR); }
#define UMAP(KS, KA, VS, VA) VF_ENTRY(umap_##KS##_##VS##_##VA) { umap<B<KS, KA>, B<VS, VA>>(0, 0); }
UMAP(1, 1, 1, 1)
UMAP(3, 1, 4, 4)
UMAP(4, 4, 4, 4)
UMAP(8, 8, 1, 1)
UMAP(4, 4, 16, 4)
UMAP(1, 1, 16, 16)
UMAP(6, 2, 3, 1)
UMAP(16, 16, 2, 2)
UMAP(12, 4, 24, 8)
VF_ENTRY(umap_insert) { umap<B<4, 4>, B<16, 8>>(INSERT_L, IOA_L); }
VF_ENTRY(umap_erase) { umap<B<12, 4>, B<3, 1>>(ERASE_KEY, CLEAR); }
