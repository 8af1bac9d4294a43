// COVER: own
// BOUNDS: capacity 260 with 255, 256 and 260 elements (deque windows displaced by 0, 250 and -257, ordered containers filled in two orders), element sizes 2, 3 and 12
#define VF_BIG 260
#include "raw_views.h"
constexpr size_t N = VF_BIG;
template <class T>
void dq()
{
    FixedDeque<T, N> c{};
    Seq m;
    seq::build<seq::Kind::DEQUE>(c, m, N, 1);
    FixedDequeRawView<> v(&c, sizeof(T), alignof(T), N);
    elements(c, v);
    for (size_t i = 0; i < c.size(); i++) vf::check(static_cast<const void*>(v.value_at(i)) == static_cast<const void*>(&c[i]), "value_at");
}
VF_ENTRY(big_deque_2) { dq<B<2, 2>>(); }
VF_ENTRY(big_deque_12) { dq<B<12, 4>>(); }
template <class T>
void li()
{
    FixedList<T, N> c{};
    Seq m;
    seq::build<seq::Kind::LIST>(c, m, N, 1);
    fixed_doubly_linked_list_detail::FixedDoublyLinkedListRawView<> v(&c, sizeof(T), alignof(T), N);
    elements(c, v);
}
VF_ENTRY(big_list_3) { li<B<3, 1>>(); }
VF_ENTRY(big_list_12) { li<B<12, 4>>(); }
using Cm = fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness;
using St = fixed_red_black_tree_detail::RedBlackTreeStorageType;
VF_ENTRY(big_set)
{
    using K = B<2, 2>;
    FixedSet<K, N> c{};
    Model<Asc> m;
    build(c, m, 0, 0, 1);
    FixedRedBlackTreeRawView v(&c, sizeof(K), N, Cm::EMBEDDED_COLOR, St::FIXED_INDEX_POOL);
    elements(c, v);
}
VF_ENTRY(big_map)
{
    using K = B<2, 2>;
    using V = B<12, 4>;
    FixedMap<K, V, N, std::less<K>, Cm::DEDICATED_COLOR, FixedIndexBasedContiguousStorage> c{};
    Model<Asc> m;
    build(c, m, 0, 0, 1);
    FixedMapRawView v(&c, sizeof(K), alignof(K), sizeof(V), alignof(V), N, Cm::DEDICATED_COLOR, St::FIXED_INDEX_CONTIGUOUS);
    entries(c, v);
}
VF_ENTRY(big_umap)
{
    using K = B<2, 2>;
    using V = B<12, 4>;
    FixedUnorderedMap<K, V, N, HBk<K>> c{};
    Model<Ins> m;
    build(c, m, 0, 0, 0);
    FixedUnorderedMapRawView v(&c, sizeof(K), alignof(K), sizeof(V), alignof(V), N);
    entries(c, v);
}
VF_ENTRY(big_uset)
{
    using K = B<3, 1>;
    FixedUnorderedSet<K, N, HBk<K>> c{};
    Model<Ins> m;
    build(c, m, 0, 0, 0);
    FixedUnorderedSetRawView v(&c, sizeof(K), alignof(K), N);
    elements(c, v);
}
