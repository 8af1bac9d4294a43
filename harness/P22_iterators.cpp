// COVER: own
// BOUNDS: iterator, const_iterator, reverse_iterator and const_reverse_iterator of FixedVector, FixedString, FixedDeque, FixedCircularDeque, FixedList, FixedMap, FixedSet, FixedUnorderedMap, FixedUnorderedSet, EnumMap, EnumSet, EnumArray; 0..3 elements with symbolic values in any internal layout within the build bound; every pair of positions (i, j) including end; all arithmetic, comparison, subscript, dereference, increment and decrement forms; integer-range, circular-range and filtered-range iterators over symbolic ranges; the iterator transformer; inputs such as copying assignment between iterators and conversion to const
// OUTSIDE: containers of more than 3 elements except 260 as in P22_big.cpp; iterators of different containers; positions outside [begin, end]
#include "enum_types.h"
#include "hash_types.h"
#include "seq_ops.h"
#include "range_iters.h"
#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#include "fixed_containers/filtered_integer_range_iterator.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"
#include "fixed_containers/integer_range_iterator.hpp"
#include "fixed_containers/random_access_iterator_transformer.hpp"
using namespace fixed_containers;
using seq::Kind;
#ifdef VF_BIG
constexpr size_t MAXN = VF_BIG;
#else
constexpr size_t MAXN = 8;
#endif
// identity of the element an iterator denotes: the address of the element (or of the mapped value or key)
template <class It>
const void* id(const It& it)
{
    if constexpr (requires { it->second; }) return std::addressof(it->second);
    else return std::addressof(*it);
}
template <class It>
It at(It b, size_t i)
{
    for (size_t k = 0; k < i; k++) ++b;
    return b;
}
// forward laws for [b, e) with elements el[0..n)
template <class It>
void forward_laws(It b, It e, const void* const* el, size_t n)
{
    size_t i = vf::pick(0, n, "i"), j = vf::pick(0, n, "j");
    It x = at(b, i), y = at(b, j);
    vf::check((x == y) == (i == j), "equality is equality of positions");
    vf::check((x != y) == (i != j), "inequality");
    vf::check((x == e) == (i == n), "end");
    vf::check((e == x) == (i == n), "end");
    if (i < n)
    {
        vf::check(id(x) == el[i], "dereference");
        It z = x;
        It old = z++;
        vf::check(old == x && id(old) == el[i], "post-increment returns the old position");
        It w = x;
        It& rw = ++w;
        vf::check(&rw == &w && w == z, "pre-increment");
        vf::check(!(z == x), "increment moves");
        if (i + 1 < n) vf::check(id(z) == el[i + 1], "increment");
        else vf::check(z == e, "increment to end");
    }
    It c{};
    c = x;
    vf::check(c == x, "iterator assignment");
    vf_cover("forward laws");
}
template <class It>
void bidir_laws(It b, It e, const void* const* el, size_t n)
{
    forward_laws(b, e, el, n);
    size_t i = vf::pick(0, n, "bi");
    It x = at(b, i);
    if (i > 0)
    {
        It z = x;
        It old = z--;
        vf::check(old == x, "post-decrement returns the old position");
        vf::check(id(z) == el[i - 1], "decrement");
        It w = x;
        It& rw = --w;
        vf::check(&rw == &w && w == z, "pre-decrement");
        ++w;
        vf::check(w == x, "increment undoes decrement");
    }
    if (i < n)
    {
        It z = x;
        ++z;
        --z;
        vf::check(z == x && id(z) == el[i], "decrement undoes increment");
    }
    // all the way back from the end
    It z = e;
    for (size_t k = n; k-- > 0;) { --z; vf::check(id(z) == el[k], "backward from the end"); }
    vf::check(z == b, "backward reaches the beginning");
    vf_cover("bidirectional laws");
}
template <class It, class IdFn>
void random_laws_by(It b, It e, size_t n, IdFn same)
{
    using D = typename std::iterator_traits<It>::difference_type;
    size_t i = vf::pick(0, n, "ri"), j = vf::pick(0, n, "rj");
    D d = static_cast<D>(j) - static_cast<D>(i);
    It x = at(b, i), y = at(b, j);
    vf::check(x + d == y, "it + n");
    vf::check(d + x == y, "n + it");
    vf::check(y - d == x, "it - n");
    vf::check(y - x == d, "it - it");
    vf::check(x - y == -d, "it - it");
    vf::check(e - x == static_cast<D>(n - i), "distance to end");
    It z = x;
    It& r = (z += d);
    vf::check(&r == &z && z == y, "+=");
    It& r2 = (z -= d);
    vf::check(&r2 == &z && z == x, "-=");
    vf::check((x < y) == (i < j) && (x <= y) == (i <= j) && (x > y) == (i > j) && (x >= y) == (i >= j), "ordering is the ordering of positions");
    auto o = x <=> y;
    vf::check((o < 0) == (i < j) && (o > 0) == (i > j) && (o == 0) == (i == j), "<=>");
    if (j < n) { vf::check(same(x + d, j), "jump and dereference"); vf::check(same(x, d, j), "subscript"); }
    vf_cover("random access laws");
}
template <class It>
void random_laws(It b, It e, const void* const* el, size_t n)
{
    struct Same
    {
        const void* const* el;
        bool operator()(const It& it, size_t j) const { return id(it) == el[j]; }
        bool operator()(const It& it, std::ptrdiff_t d, size_t j) const { return std::addressof(it[d]) == el[j]; }
    };
    random_laws_by(b, e, n, Same{el});
}
enum class Cat { FWD, BIDIR, RANDOM };
template <class C, Cat CAT>
void laws(C& c, size_t n)
{
    const C& k = c;
    const void* el[MAXN];
    const void* rel[MAXN];
    size_t m = 0;
    for (auto it = c.begin(); it != c.end() && m < MAXN; ++it) el[m++] = id(it);
    vf::check(m == n, "forward iteration length");
    if (m != n) return;
    for (size_t i = 0; i < n; i++)
    {
        rel[n - 1 - i] = el[i];
#ifndef VF_BIG
        for (size_t j = 0; j < i; j++) vf::check(el[i] != el[j], "each element visited once");
#endif
    }
    using It = typename C::iterator;
    using CIt = typename C::const_iterator;
    size_t which = vf::pick(0, CAT == Cat::FWD ? 2 : 6, "which");
    auto go = [&](auto b, auto e, const void* const* x)
    {
        if constexpr (CAT == Cat::FWD) forward_laws(b, e, x, n);
        else if constexpr (CAT == Cat::BIDIR) bidir_laws(b, e, x, n);
        else if (vf::coin("random")) random_laws(b, e, x, n);
        else bidir_laws(b, e, x, n);
    };
    if (which == 0) return go(c.begin(), c.end(), el);
    if (which == 1) { go(k.begin(), k.end(), el); vf::check(k.begin() == k.cbegin() && k.end() == k.cend(), "cbegin"); return; }
    if (which == 2)
    {
        // conversion to const and mixed comparison
        size_t i = vf::pick(0, n, "i"), j = vf::pick(0, n, "j");
        It x = at(c.begin(), i);
        CIt cx = x;
        CIt cy = at(k.cbegin(), j);
        vf::check(cx == at(k.cbegin(), i), "conversion to const keeps the position");
        if (i < n) vf::check(id(cx) == el[i], "conversion to const keeps the element");
        vf::check((x == cy) == (i == j) && (cy == x) == (i == j) && (cx == cy) == (i == j), "mutable and const iterators compare by position");
        if constexpr (CAT == Cat::RANDOM)
        {
            vf::check(cx - cy == static_cast<std::ptrdiff_t>(i) - static_cast<std::ptrdiff_t>(j), "difference after conversion");
            vf::check(x - cy == static_cast<std::ptrdiff_t>(i) - static_cast<std::ptrdiff_t>(j), "mixed difference");
            vf::check(cy - x == static_cast<std::ptrdiff_t>(j) - static_cast<std::ptrdiff_t>(i), "mixed difference");
            vf::check((cx < cy) == (i < j), "ordering after conversion");
            vf::check((x < cy) == (i < j) && (cy < x) == (j < i), "mixed ordering");
        }
        vf_cover("conversion");
        return;
    }
    if constexpr (CAT != Cat::FWD)
    {
        using RIt = typename C::reverse_iterator;
        using CRIt = typename C::const_reverse_iterator;
        if (which == 3) return go(c.rbegin(), c.rend(), rel);
        if (which == 4) { go(k.rbegin(), k.rend(), rel); vf::check(k.rbegin() == k.crbegin() && k.rend() == k.crend(), "crbegin"); return; }
        if (which == 5)
        {
            size_t i = vf::pick(0, n, "i"), j = vf::pick(0, n, "j");
            RIt x = at(c.rbegin(), i);
            CRIt cx = x;
            CRIt cy = at(k.crbegin(), j);
            vf::check(cx == at(k.crbegin(), i), "reverse conversion to const keeps the position");
            if (i < n) vf::check(id(cx) == rel[i], "reverse conversion to const keeps the element");
            vf::check((x == cy) == (i == j) && (cy == x) == (i == j) && (cx == cy) == (i == j), "mutable and const reverse iterators compare by position");
            if constexpr (CAT == Cat::RANDOM)
            {
                vf::check(cx - cy == static_cast<std::ptrdiff_t>(i) - static_cast<std::ptrdiff_t>(j), "reverse difference after conversion");
                vf::check(x - cy == static_cast<std::ptrdiff_t>(i) - static_cast<std::ptrdiff_t>(j), "reverse mixed difference");
                vf::check((x < cy) == (i < j) && (cx < cy) == (i < j), "reverse mixed ordering");
            }
            vf_cover("reverse conversion");
            return;
        }
        size_t i = vf::pick(0, n, "i");
        RIt r = at(c.rbegin(), i);
        vf::check(r.base() == at(c.begin(), n - i), "base is one past the reversed element");
        if (i < n) { auto f = r.base(); --f; vf::check(id(f) == id(r), "base"); }
        vf_cover("base");
    }
}
template <Kind K, class C, Cat CAT>
void seqs(size_t rot)
{
    C c{};
    Seq m;
    seq::build<K>(c, m, C::static_max_size(), rot);
    laws<C, CAT>(c, m.n);
}
#ifndef VF_BIG
#define SEQ(NAME, TPL, KD, CAT, ROT) \
    VF_ENTRY(NAME##_u16) { seqs<KD, TPL<u16, 3>, Cat::CAT>(ROT); } \
    VF_ENTRY(NAME##_nt) { seqs<KD, TPL<NT, 3>, Cat::CAT>(ROT); } \
    VF_ENTRY(NAME##_cap0) { TPL<u16, 0> c{}; laws<TPL<u16, 0>, Cat::CAT>(c, 0); } \
    VF_ENTRY(NAME##_cap1) { seqs<KD, TPL<u16, 1>, Cat::CAT>(ROT ? 1 : 0); }
SEQ(vector, FixedVector, Kind::VECTOR, RANDOM, 0)
SEQ(deque, FixedDeque, Kind::DEQUE, RANDOM, 2)
SEQ(circ, FixedCircularDeque, Kind::CIRCULAR, RANDOM, 2)
SEQ(list, FixedList, Kind::LIST, BIDIR, 1)
VF_ENTRY(string)
{
    FixedString<3> s{};
    size_t n = vf::pick(0, 3, "n");
    for (size_t i = 0; i < n; i++) s.push_back(vf::sym<char>("x"));
    laws<FixedString<3>, Cat::RANDOM>(s, n);
}
template <class Ord, class C, Cat CAT>
void assocs(size_t n, size_t x)
{
    C c{};
    assoc::Model<Ord> m;
    assoc::build(c, m, 0, n, x);
    laws<C, CAT>(c, m.n);
}
using namespace assoc;
using COL = fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness;
VF_ENTRY(map_u16__w3) { assocs<Asc, FixedMap<u16, u16, 3>, Cat::BIDIR>(3, 1); }
VF_ENTRY(map_nt__w3) { assocs<Asc, FixedMap<NT, NT, 4, std::less<NT>, COL::DEDICATED_COLOR>, Cat::BIDIR>(3, 1); }
VF_ENTRY(map_cap0) { assocs<Asc, FixedMap<u16, u16, 0>, Cat::BIDIR>(0, 0); }
VF_ENTRY(set_u16__w3) { assocs<Asc, FixedSet<u16, 3>, Cat::BIDIR>(3, 1); }
VF_ENTRY(set_nt__w3) { assocs<Asc, FixedSet<NT, 4>, Cat::BIDIR>(3, 1); }
VF_ENTRY(map_contig__w3) { assocs<Asc, FixedMap<u16, NT, 3, std::less<u16>, COL::EMBEDDED_COLOR, FixedIndexBasedContiguousStorage>, Cat::BIDIR>(3, 1); }
VF_ENTRY(set_contig__w3) { assocs<Asc, FixedSet<NT, 3, std::less<NT>, COL::DEDICATED_COLOR, FixedIndexBasedContiguousStorage>, Cat::BIDIR>(3, 1); }
VF_ENTRY(set_cap0) { assocs<Asc, FixedSet<u16, 0>, Cat::BIDIR>(0, 0); }
VF_ENTRY(umap_u16) { assocs<Ins, FixedUnorderedMap<u16, u16, 3, HF>, Cat::FWD>(3, 1); }
VF_ENTRY(umap_nt) { assocs<Ins, FixedUnorderedMap<NT, NT, 3, H0>, Cat::FWD>(3, 1); }
VF_ENTRY(umap_cap0) { assocs<Ins, FixedUnorderedMap<u16, u16, 0, HF>, Cat::FWD>(0, 0); }
VF_ENTRY(uset_u16) { assocs<Ins, FixedUnorderedSet<u16, 3, HF>, Cat::FWD>(3, 1); }
VF_ENTRY(uset_nt) { assocs<Ins, FixedUnorderedSet<NT, 3, H0>, Cat::FWD>(3, 1); }
VF_ENTRY(enummap_sparse) { assocs<Asc, EnumMap<ES, u16>, Cat::BIDIR>(2, 0); }
VF_ENTRY(enummap_full) { EnumMap<EC, NT> c; for (u16 i = 0; i < 4; i++) c.try_emplace(Tab<EC>::at(i), i); laws<EnumMap<EC, NT>, Cat::BIDIR>(c, 4); }
VF_ENTRY(enummap_rich) { assocs<Asc, EnumMap<R3, NT>, Cat::BIDIR>(3, 1); }
VF_ENTRY(enumset_sparse) { assocs<Asc, EnumSet<ES>, Cat::BIDIR>(2, 0); }
VF_ENTRY(enumset_rich) { assocs<Asc, EnumSet<R3>, Cat::BIDIR>(3, 1); }
VF_ENTRY(enumset_full) { auto c = EnumSet<ES>::all(); laws<EnumSet<ES>, Cat::BIDIR>(c, 4); }
VF_ENTRY(enumarray)
{
    EnumArray<ES, u16> a{};
    for (u16 i = 0; i < 4; i++) a[Tab<ES>::at(i)] = vf::sym<u16>("x");
    laws<EnumArray<ES, u16>, Cat::RANDOM>(a, 4);
}
#endif
