// BOUNDS: FixedRedBlackTree / FixedMap / FixedSet, colour layouts {embedded, dedicated} x storages {pool, contiguous}; (a) every arrival order of up to 7 symbolic keys (thorough 8) followed by erasing up to 2 at any positions; (b) 17 keys (thorough 21) with symbolic values arriving in ascending, descending, inside-out, outside-in and two interleaved orders, followed by every sequence of 3 (thorough 4) erasures at any positions ; 9 keys (thorough 11), one erased, then insertions in any two gaps; the full red-black invariants, link consistency, order and height bound are asserted after every operation
// OUTSIDE: larger trees except as in the *_big.cpp entries; arrival orders beyond the listed ones above those sizes
#include "types.h"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_red_black_tree.hpp"
#include "fixed_containers/fixed_set.hpp"
using namespace fixed_containers;
using namespace fixed_containers::fixed_red_black_tree_detail;
constexpr auto EMB = RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR;
constexpr auto DED = RedBlackTreeNodeColorCompactness::DEDICATED_COLOR;
#ifdef VF_DEEP
constexpr size_t ANY = 8, BIG = 21, ERS = 4, GAP = 11;
#else
constexpr size_t ANY = 7, BIG = 17, ERS = 3, GAP = 9;
#endif
struct Seen { size_t n = 0, height = 0; bool ok = true; };
// returns the black height of the subtree
template <class T>
size_t walk(const T& t, size_t i, size_t parent, bool parent_red, size_t depth, const Seq& m, Seen& s)
{
    if (i == NULL_INDEX) return 1;
    if (s.n >= m.n && depth > m.n) { vf::check(false, "tree has a cycle or stray nodes"); return 1; }
    if (depth + 1 > s.height) s.height = depth + 1;
    auto node = t.node_at(i);
    vf::check(node.parent_index() == parent, "parent link");
    bool red = node.color() == COLOR_RED;
    vf::check(!(red && parent_red), "red node with red child");
    size_t l = walk(t, node.left_index(), i, red, depth + 1, m, s);
    vf::check(s.n < m.n, "too many nodes");
    if (s.n < m.n) vf::check(node.key() == m.a[s.n], "in-order keys");
    s.n++;
    size_t r = walk(t, node.right_index(), i, red, depth + 1, m, s);
    vf::check(l == r, "black height");
    return l + (red ? 0 : 1);
}
template <class T>
void valid(const T& t, const Seq& m)
{
    Seen s;
    vf::check(t.size() == m.n, "size");
    size_t root = t.root_index();
    vf::check((root == NULL_INDEX) == (m.n == 0), "root");
    if (root != NULL_INDEX) vf::check(t.node_at(root).color() == COLOR_BLACK, "root is black");
    walk(t, root, NULL_INDEX, false, 0, m, s);
    vf::check(s.n == m.n, "too few nodes");
    // height <= 2 log2(n + 1)
    vf::check((size_t(1) << s.height) <= (m.n + 1) * (m.n + 1), "height bound");
}
template <class T>
size_t nth(const T& t, size_t p)
{
    size_t i = t.index_of_min_at();
    while (p--) i = t.index_of_successor_at(i);
    return i;
}
// erase the key at sorted position p in one of the ways the containers use
template <class T>
void erase_at(T& t, Seq& m, size_t p, bool by_key)
{
    if (by_key) vf::check(t.delete_node(m.a[p]) == 1, "delete_node");
    else
    {
        size_t s = t.delete_at_and_return_successor(nth(t, p));
        m.erase(p);
        if (p == m.n) vf::check(s == NULL_INDEX, "successor");
        else vf::check(s == nth(t, p), "successor");
        return;
    }
    m.erase(p);
}
// (a) any order
template <class T>
void any_order(size_t n, size_t erasures)
{
    T t{};
    Seq m;
    n = vf::pick(0, n);
    for (size_t i = 0; i < n; i++)
    {
        u16 x = vf::sym<u16>("k");
        size_t p = 0;
        while (p < m.n && m.a[p] < x) p++;
        if (p < m.n && m.a[p] == x)
        {
            t.insert_node(x);  // already there: nothing changes
            valid(t, m);
            vf_end();
        }
        t.insert_node(x);
        m.insert(p, x);
    }
    valid(t, m);
    for (size_t i = 0; i < erasures && m.n; i++)
    {
        erase_at(t, m, vf::pick(0, m.n - 1), i == 0);
        valid(t, m);
    }
    vf_cover("any order");
}
// (b) long patterns
inline size_t pattern(size_t which, size_t i, size_t n)
{
    switch (which)
    {
    case 0: return i;
    case 1: return n - 1 - i;
    case 2: return i % 2 ? n - 1 - i / 2 : i / 2;                              // outside-in
    case 3: { size_t h = n / 2; return i % 2 ? h + (i + 1) / 2 : h - i / 2; }  // inside-out (odd n)
    case 4: return (i * 5) % n;
    default: return (i * 7 + 3) % n;
    }
}
template <class T>
void patterns(size_t n, size_t erasures, size_t lo, size_t hi)
{
    T t{};
    u16 k[2 * BIG + 1];  // k[2i+1] are inserted, k[2i] lie in the gaps
    for (size_t i = 0; i < 2 * n + 1; i++)
    {
        k[i] = vf::sym<u16>("k");
        if (i) vf_assume(k[i - 1] < k[i]);
    }
    size_t w = vf::pick(lo, hi, "pattern");
    Seq m;
    for (size_t i = 0; i < n; i++) m.a[i] = k[2 * i + 1];
    Seq cur;
    bool in[BIG] = {};
    for (size_t i = 0; i < n; i++)
    {
        size_t q = pattern(w, i, n);
        in[q] = true;
        t.insert_node(k[2 * q + 1]);
        cur.n = 0;
        for (size_t j = 0; j < n; j++)
            if (in[j]) cur.push_back(k[2 * j + 1]);
        valid(t, cur);
    }
    vf::check(cur.n == n, "pattern is a permutation");
    for (size_t i = 0; i < erasures && cur.n; i++)
    {
        erase_at(t, cur, vf::pick(0, cur.n - 1, "p"), false);
        valid(t, cur);
    }
    vf_cover("patterns");
}
template <class T>
void erase_all_insert(size_t n, size_t w)
{
    // erase from one end or the middle until empty; then the tree is reusable
    T t{};
    u16 k[BIG + 1];
    Seq m;
    for (size_t i = 0; i < n; i++)
    {
        k[i] = vf::sym<u16>("k");
        if (i) vf_assume(k[i - 1] < k[i]);
        m.push_back(k[i]);
    }
    for (size_t i = 0; i < n; i++) t.insert_node(k[pattern(w, i, n)]);
    valid(t, m);
    size_t how = vf::pick(0, 3, "how");
    while (m.n)
    {
        size_t p = how == 0 ? 0 : how == 1 ? m.n - 1 : how == 2 ? m.n / 2 : (m.n % 2 ? 0 : m.n - 1);
        erase_at(t, m, p, false);
        valid(t, m);
    }
    for (size_t i = 0; i < n; i++)
    {
        t.insert_node(k[i]);
        m.push_back(k[i]);
        valid(t, m);
    }
    t.clear();
    m.clear();
    valid(t, m);
    vf_cover("erase all");
}
// insertion into any gap after erasures
template <class T>
void gap_insert(size_t n, size_t w)
{
    T t{};
    u16 k[2 * BIG + 1];
    Seq m;
    for (size_t i = 0; i < 2 * n + 1; i++)
    {
        k[i] = vf::sym<u16>("k");
        if (i) vf_assume(k[i - 1] < k[i]);
    }
    for (size_t i = 0; i < n; i++) m.push_back(k[2 * i + 1]);
    for (size_t i = 0; i < n; i++) t.insert_node(k[2 * pattern(w, i, n) + 1]);
    size_t e = vf::pick(0, n - 1, "e");
    erase_at(t, m, e, false);
    for (int r = 0; r < 2; r++)
    {
        size_t g = vf::pick(0, n, "g");
        size_t p = 0;
        while (p < m.n && m.a[p] < k[2 * g]) p++;
        if (p < m.n && m.a[p] == k[2 * g]) vf_end();
        m.insert(p, k[2 * g]);
        t.insert_node(k[2 * g]);
        valid(t, m);
    }
    vf_cover("gap insert");
}
template <size_t N> using PE = FixedRedBlackTree<u16, u16, N, std::less<u16>, EMB, FixedIndexBasedPoolStorage>;
template <size_t N> using PD = FixedRedBlackTree<u16, EmptyValue, N, std::less<u16>, DED, FixedIndexBasedPoolStorage>;
template <size_t N> using CE = FixedRedBlackTree<u16, u16, N, std::less<u16>, EMB, FixedIndexBasedContiguousStorage>;
template <size_t N> using CD = FixedRedBlackTree<u16, EmptyValue, N, std::less<u16>, DED, FixedIndexBasedContiguousStorage>;
#if !defined(VF_BIG) && !defined(VF_NO_ENTRIES)
VF_ENTRY(any_pe__w9) { any_order<PE<ANY>>(ANY, 2); }
VF_ENTRY(any_pd__w5) { any_order<PD<ANY - 1>>(ANY - 1, 3); }
VF_ENTRY(any_ce__w5) { any_order<CE<ANY - 1>>(ANY - 1, 3); }
VF_ENTRY(any_cd__w9) { any_order<CD<ANY - 1>>(ANY - 1, 2); }
VF_ENTRY(pat_pe_a__w8) { patterns<PE<BIG>>(BIG, ERS, 0, 1); }
VF_ENTRY(pat_pe_b__w8) { patterns<PE<BIG>>(BIG, ERS, 2, 3); }
VF_ENTRY(pat_pe_c__w8) { patterns<PE<BIG>>(BIG, ERS, 4, 5); }
VF_ENTRY(pat_cd__w8) { patterns<CD<BIG>>(BIG, 2, 0, 5); }
VF_ENTRY(all_pd) { erase_all_insert<PD<BIG>>(BIG, vf::pick(0, 5, "w")); }
VF_ENTRY(all_ce) { erase_all_insert<CE<BIG>>(BIG, vf::pick(0, 5, "w")); }
VF_ENTRY(gap_0__w7) { gap_insert<PE<BIG>>(GAP, 0); }
VF_ENTRY(gap_1__w7) { gap_insert<CE<BIG>>(GAP, 1); }
VF_ENTRY(gap_2__w7) { gap_insert<PD<BIG>>(GAP, 2); }
VF_ENTRY(gap_3__w7) { gap_insert<CD<BIG>>(GAP, 3); }
VF_ENTRY(gap_4__w7) { gap_insert<PE<BIG>>(GAP, 4); }
#endif
