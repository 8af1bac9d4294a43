// COVER: own
// BOUNDS: FixedVector, FixedDeque, FixedCircularDeque, FixedList, FixedStack, FixedQueue, FixedCircularQueue, FixedString, FixedMap, FixedSet, FixedUnorderedMap, FixedUnorderedSet, EnumMap, EnumSet, EnumArray; two containers of equal and of different capacity (2, 3 and 4), any contents up to 3 elements (all values symbolic) and any insertion history, rotation, free-list permutation or probe layout within the build bound; ==, !=, <, <=, >, >=, <=> in both directions and against itself; strings also against C strings and string views, with embedded zeros
// OUTSIDE: containers ordered by different comparators; elements without a total order (NaN)
#include "enum_types.h"
#include "hash_types.h"
#include "seq_ops.h"
#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"
using namespace fixed_containers;
using seq::Kind;
#ifdef VF_DEEP
constexpr size_t D = 1;
#else
constexpr size_t D = 0;
#endif
int cmp(const Seq& a, const Seq& b)
{
    for (size_t i = 0; i < a.n && i < b.n; i++)
    {
        if (a.a[i] < b.a[i]) return -1;
        if (a.a[i] > b.a[i]) return 1;
    }
    return a.n < b.n ? -1 : a.n > b.n ? 1 : 0;
}
template <class A, class B>
void ordered(const A& a, const B& b, int r)
{
    vf::check((a == b) == (r == 0), "==");
    vf::check((a != b) == (r != 0), "!=");
    vf::check((a < b) == (r < 0), "<");
    vf::check((a <= b) == (r <= 0), "<=");
    vf::check((a > b) == (r > 0), ">");
    vf::check((a >= b) == (r >= 0), ">=");
    auto o = a <=> b;
    vf::check((o < 0) == (r < 0) && (o > 0) == (r > 0) && (o == 0) == (r == 0), "<=>");
    vf::obs(static_cast<u64>(r));
}
template <class A, class B>
void equality(const A& a, const B& b, bool same)
{
    vf::check((a == b) == same, "==");
    vf::check((a != b) == !same, "!=");
    vf::check((b == a) == same, "== swapped");
    vf::check((b != a) == !same, "!= swapped");
}
template <class A, class B>
void both(const A& a, const B& b, int r)
{
    ordered(a, b, r);
    ordered(b, a, -r);
    ordered(a, a, 0);
    if (r == 0) vf_cover("equal");
    if (r < 0) vf_cover("less");
    if (r > 0) vf_cover("greater");
}
// how a container reports misuse is no part of its contents
struct Policy : customize::SequenceContainerAbortChecking<u16, 3> {};
template <Kind K, class A, class B>
void seqs(size_t n1, size_t n2, size_t rot)
{
    A a{};
    B b{};
    Seq ma, mb;
    seq::build<K>(a, ma, n1, rot);
    seq::build<K>(b, mb, n2, rot ? 1 : 0);
    both(a, b, cmp(ma, mb));
}
#define SEQ(NAME, TPL, KD, ROT) \
    VF_ENTRY(NAME##_u16) { seqs<KD, TPL<u16, 3>, TPL<u16, 3>>(3, 2 + D, ROT); } \
    VF_ENTRY(NAME##_cap) { seqs<KD, TPL<u16, 2>, TPL<u16, 4>>(2, 3, ROT); } \
    VF_ENTRY(NAME##_nt) { seqs<KD, TPL<NT, 3>, TPL<NT, 3>>(2 + D, 2, ROT); } \
    VF_ENTRY(NAME##_policy) { seqs<KD, TPL<u16, 3>, TPL<u16, 3, Policy>>(2, 2, ROT); }
SEQ(vector, FixedVector, Kind::VECTOR, 0)
SEQ(deque, FixedDeque, Kind::DEQUE, 2)
SEQ(circ, FixedCircularDeque, Kind::CIRCULAR, 2)
SEQ(list, FixedList, Kind::LIST, 1)
template <class A, class B, bool STACK, bool CIRC>
void adapters()
{
    A a{};
    B b{};
    Seq ma, mb;
    auto go = [](auto& c, Seq& m, size_t ops, size_t cap)
    {
        using T = typename std::remove_reference_t<decltype(c)>::value_type;
        size_t n = vf::pick(0, ops, "n");
        for (size_t i = 0; i < n; i++)
        {
            if (m.n == cap && !CIRC) break;
            u16 x = vf::sym<u16>("x");
            if (m.n == cap) m.pop_front();
            c.push(T(x));
            m.push_back(x);
        }
        if (m.n && vf::coin("pop")) { c.pop(); if (STACK) m.n--; else m.pop_front(); }
    };
    go(a, ma, 4, A::static_max_size());
    go(b, mb, 3, B::static_max_size());
    both(a, b, cmp(ma, mb));
}
VF_ENTRY(stack) { adapters<FixedStack<u16, 3>, FixedStack<u16, 2>, true, false>(); }
VF_ENTRY(stack_nt) { adapters<FixedStack<NT, 3>, FixedStack<NT, 3>, true, false>(); }
VF_ENTRY(queue) { adapters<FixedQueue<u16, 3>, FixedQueue<u16, 2>, false, false>(); }
VF_ENTRY(queue_nt) { adapters<FixedQueue<NT, 3>, FixedQueue<NT, 3>, false, false>(); }
VF_ENTRY(cqueue) { adapters<FixedCircularQueue<u16, 3>, FixedCircularQueue<u16, 2>, false, true>(); }

// strings: characters compare as unsigned char; contents may hold zeros
template <class A, class B>
void strings(size_t n1, size_t n2)
{
    A a{};
    B b{};
    Seq ma, mb;
    auto go = [](auto& c, Seq& m, size_t hi)
    {
        size_t n = vf::pick(0, hi, "n");
        for (size_t i = 0; i < n; i++) { char x = vf::sym<char>("x"); c.push_back(x); m.push_back(static_cast<u8>(x)); }
        // leave something behind the end
        if (n && vf::coin("pop")) { c.pop_back(); m.n--; }
    };
    go(a, ma, n1);
    go(b, mb, n2);
    int r = cmp(ma, mb);
    both(a, b, r);
    std::string_view sv(b.data(), b.size());
    ordered(a, sv, r);
    ordered(sv, a, -r);
    char z[8];
    size_t k = 0;
    for (size_t i = 0; i < mb.n; i++) z[k++] = static_cast<char>(mb.a[i]);
    z[k] = 0;
    Seq mz;
    for (size_t i = 0; i < k && z[i] != 0; i++) mz.push_back(static_cast<u8>(z[i]));
    ordered(a, static_cast<const char*>(z), cmp(ma, mz));
    int q = a.compare(std::string_view(b));
    vf::check((q < 0) == (r < 0) && (q > 0) == (r > 0), "compare");
}
VF_ENTRY(string) { strings<FixedString<3>, FixedString<3>>(3, 2); }
VF_ENTRY(string_policy) { strings<FixedString<3>, FixedString<3, Policy>>(2, 2); }
VF_ENTRY(string_cap) { strings<FixedString<2>, FixedString<5>>(2, 3); }

template <class Ord> bool same(const assoc::Model<Ord>& a, const assoc::Model<Ord>& b)
{
    if (a.n != b.n) return false;
    for (size_t i = 0; i < a.n; i++)
    {
        size_t p = b.find(a.k[i]);
        if (p == b.n || b.v[p] != a.v[i]) return false;
    }
    return true;
}
template <class Ord> int cmp(const assoc::Model<Ord>& a, const assoc::Model<Ord>& b)
{
    for (size_t i = 0; i < a.n && i < b.n; i++)
    {
        if (Ord::lt(a.k[i], b.k[i])) return -1;
        if (Ord::lt(b.k[i], a.k[i])) return 1;
    }
    return a.n < b.n ? -1 : a.n > b.n ? 1 : 0;
}
template <class Ord, class A, class B>
void assocs(size_t n1, size_t n2, size_t x1, size_t x2)
{
    A a{};
    B b{};
    assoc::Model<Ord> ma, mb;
    assoc::build(a, ma, 0, n1, x1);
    assoc::build(b, mb, 0, n2, x2);
    bool s = same(ma, mb);
    equality(a, b, s);
    equality(a, a, true);
    if (s) vf_cover("equal maps"); else vf_cover("different maps");
    if constexpr (Ord::ORDERED && !assoc::IS_MAP<A>) both(a, b, cmp(ma, mb));
}
using namespace assoc;
VF_ENTRY(map_u16__w3) { assocs<Asc, FixedMap<u16, u16, 3>, FixedMap<u16, u16, 3>>(2 + D, 2, 1, 1); }
VF_ENTRY(map_cap__w3) { assocs<Asc, FixedMap<u16, NT, 3>, FixedMap<u16, NT, 4>>(3, 2, 1, 0); }
VF_ENTRY(map_nt__w3) { assocs<Asc, FixedMap<NT, NT, 3>, FixedMap<NT, NT, 3>>(2, 2 + D, 1, 1); }
VF_ENTRY(set_u16__w3) { assocs<Asc, FixedSet<u16, 3>, FixedSet<u16, 3>>(2 + D, 2, 1, 1); }
VF_ENTRY(set_cap__w3) { assocs<Asc, FixedSet<NT, 3>, FixedSet<NT, 4>>(3, 2, 1, 0); }
// the node layout, storage and checking policy are no part of the contents
VF_ENTRY(map_layout__w3) { assocs<Asc, FixedMap<u16, NT, 3>, FixedMap<u16, NT, 3, std::less<u16>, fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::DEDICATED_COLOR, FixedIndexBasedContiguousStorage>>(2, 2, 1, 1); }
VF_ENTRY(set_layout__w3) { assocs<Asc, FixedSet<NT, 3, std::less<NT>, fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR, FixedIndexBasedContiguousStorage>, FixedSet<NT, 4>>(2, 2, 1, 1); }
VF_ENTRY(umap_u16__w3) { assocs<Ins, FixedUnorderedMap<u16, u16, 3, HF, std::equal_to<u16>, 3>, FixedUnorderedMap<u16, u16, 3, HF, std::equal_to<u16>, 3>>(2 + D, 2, 1, 1); }
VF_ENTRY(umap_nt__w3) { assocs<Ins, FixedUnorderedMap<NT, NT, 2, H16, std::equal_to<NT>, 3>, FixedUnorderedMap<NT, NT, 2, H16, std::equal_to<NT>, 3>>(2, 2, 0, 1); }
VF_ENTRY(umap_cap__w3) { assocs<Ins, FixedUnorderedMap<u16, u16, 2, HF>, FixedUnorderedMap<u16, u16, 4, HF>>(2, 2 + D, 0, 1); }
VF_ENTRY(uset_u16__w3) { assocs<Ins, FixedUnorderedSet<u16, 3, HF, std::equal_to<u16>, 3>, FixedUnorderedSet<u16, 3, HF, std::equal_to<u16>, 3>>(3, 2 + D, 1, 1); }
VF_ENTRY(uset_nt__w3) { assocs<Ins, FixedUnorderedSet<NT, 3, H0>, FixedUnorderedSet<NT, 3, H0>>(3, 3, 1, 0); }
VF_ENTRY(uset_cap__w3) { assocs<Ins, FixedUnorderedSet<u16, 2, HF>, FixedUnorderedSet<u16, 3, HF>>(2, 3, 0, 0); }
VF_ENTRY(enummap_u16__w3) { assocs<Asc, EnumMap<ES, u16>, EnumMap<ES, u16>>(2, 2, 1, 1); }
VF_ENTRY(enummap_nt__w3) { assocs<Asc, EnumMap<R3, NT>, EnumMap<R3, NT>>(3, 2, 1, 1); }
VF_ENTRY(enumset__w3) { assocs<Asc, EnumSet<ES>, EnumSet<ES>>(3, 2, 1, 1); }
VF_ENTRY(enumset_rich__w3) { assocs<Asc, EnumSet<R3>, EnumSet<R3>>(3, 3, 1, 0); }
VF_ENTRY(enumarray)
{
    EnumArray<ES, u16> a{}, b{};
    Seq ma, mb;
    for (u16 i = 0; i < 4; i++)
    {
        u16 x = vf::sym<u16>("x"), y = vf::sym<u16>("y");
        a[Tab<ES>::at(i)] = x;
        b[Tab<ES>::at(i)] = y;
        ma.push_back(x);
        mb.push_back(y);
    }
    both(a, b, cmp(ma, mb));
}
