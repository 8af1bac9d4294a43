// BOUNDS: FixedMap<K,V,CAP,Compare,layout,storage>, K,V in {u16, NT}, layouts {embedded, dedicated colour} x storages {pool, contiguous}, comparators {less, greater, run-time direction, transparent}; up to 4 entries (thorough 5) arriving in every order with all 16-bit keys and values symbolic, up to 2 erased again; every single operation from every such state, every pair of operations at CAP 2; capacity 0, 1
// OUTSIDE: larger maps except as in the *_big.cpp entries under arbitrary orders (P10 covers deeper trees)
#include "assoc_ops.h"
#include "fixed_containers/fixed_map.hpp"
using namespace fixed_containers;
using namespace assoc;
using fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness;
constexpr auto EMB = RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR;
constexpr auto DED = RedBlackTreeNodeColorCompactness::DEDICATED_COLOR;
#ifdef VF_DEEP
constexpr size_t N = 5;
#else
constexpr size_t N = 4;
#endif
template <class K, class V, size_t C> using PoolE = FixedMap<K, V, C>;
template <class K, class V, size_t C> using PoolD = FixedMap<K, V, C, std::less<K>, DED>;
template <class K, class V, size_t C> using ContE = FixedMap<K, V, C, std::less<K>, EMB, FixedIndexBasedContiguousStorage>;
template <class K, class V, size_t C> using ContD = FixedMap<K, V, C, std::less<K>, DED, FixedIndexBasedContiguousStorage>;
struct Dyn { bool rev = false; bool operator()(const NT& a, const NT& b) const { return rev ? b < a : a < b; } };
#define SUITE(NAME, ORD, ...)                                                     \
    VF_ENTRY(NAME##_insert) { run<ORD, __VA_ARGS__>(0, N - 1, 1, INSERT_L, IOA_HINT, 1); }  \
    VF_ENTRY(NAME##_emplace) { run<ORD, __VA_ARGS__>(0, N - 1, 1, TRY_L, WRITE, 1); }       \
    VF_ENTRY(NAME##_full__w2) { run<ORD, __VA_ARGS__>(N, N, 0, INSERT_L, WRITE, 1); }       \
    VF_ENTRY(NAME##_erase__w3) { run<ORD, __VA_ARGS__>(0, N, 1, ERASE_KEY, LOOKUP, 1); }
SUITE(pool_e, Asc, PoolE<u16, u16, N>)
SUITE(cont_d, Asc, ContD<NT, NT, N>)
SUITE(greater, Desc, FixedMap<u16, NT, N, std::greater<u16>>)
VF_ENTRY(pool_d_erase) { run<Asc, PoolD<u16, u16, 4>>(0, 4, 1, ERASE_KEY, ERASE_IF, 1); }
VF_ENTRY(cont_e_erase) { run<Asc, ContE<u16, u16, 4>>(0, 4, 1, ERASE_KEY, ERASE_IF, 1); }
VF_ENTRY(nt_two__w9) { run<Asc, PoolE<NT, NT, 2>>(0, 2, 0, INSERT_L, LOOKUP, 2); }
VF_ENTRY(cont_two__w9) { run<Asc, ContE<u16, u16, 2>>(0, 2, 0, INSERT_L, LOOKUP, 2); }
VF_ENTRY(cap1) { run<Asc, PoolE<u16, u16, 1>>(0, 1, 0, INSERT_L, LOOKUP, 2); }
VF_ENTRY(cap0) { run<Asc, PoolE<u16, u16, 0>>(0, 0, 0, ERASE_KEY, LOOKUP, 1); }
VF_ENTRY(dyn_rev)
{
    using M = FixedMap<NT, u16, 3, Dyn>;
    run<Desc, M>(0, 3, 1, INSERT_L, LOOKUP, 1, M{Dyn{true}});
}
VF_ENTRY(dyn_fwd)
{
    using M = FixedMap<NT, u16, 3, Dyn>;
    run<Asc, M>(0, 3, 1, INSERT_L, LOOKUP, 1, M{Dyn{false}});
}
// heterogeneous lookup
struct Q { u16 q; };
struct TLess
{
    using is_transparent = void;
    bool operator()(const u16& a, const u16& b) const { return a < b; }
    bool operator()(const Q& a, const u16& b) const { return a.q < b; }
    bool operator()(const u16& a, const Q& b) const { return a < b.q; }
};
VF_ENTRY(transparent)
{
    using M = FixedMap<u16, u16, 3, TLess>;
    M c{};
    Model<Asc> m;
    build(c, m, 0, 3, 0);
    u16 x = vf::sym<u16>("x");
    Q k{x};
    const M& q = c;
    size_t p = m.find(x), l = m.lower(x), u = m.upper(x);
    at_pos(c, m, c.find(k), p, "find");
    vf::check(q.find(k) == (p == m.n ? q.cend() : cnth(q, p)), "find const");
    vf::check(q.contains(k) == (p != m.n) && q.count(k) == (p != m.n), "contains");
    at_pos(c, m, c.lower_bound(k), l, "lower_bound");
    at_pos(c, m, c.upper_bound(k), u, "upper_bound");
    vf::check(q.lower_bound(k) == cnth(q, l) && q.upper_bound(k) == cnth(q, u), "bounds const");
    auto e = c.equal_range(k);
    vf::check(e.first == nth(c, l) && e.second == nth(c, u), "equal_range");
    auto f = q.equal_range(k);
    vf::check(f.first == cnth(q, l) && f.second == cnth(q, u), "equal_range const");
}
// a heterogeneous key may be equivalent to several entries
struct Page { u16 lo, hi; };
struct PLess
{
    using is_transparent = void;
    bool operator()(const u16& a, const u16& b) const { return a < b; }
    bool operator()(const Page& a, const u16& b) const { return a.hi < b; }
    bool operator()(const u16& a, const Page& b) const { return a < b.lo; }
};
VF_ENTRY(transparent_page__w9)
{
    using M = FixedMap<u16, u16, 4, PLess>;
    M c{};
    Model<Asc> m;
    build(c, m, 0, 3, 0);
    u16 lo = vf::sym<u16>("lo"), hi = vf::sym<u16>("hi");
    vf_assume(lo <= hi);
    Page k{lo, hi};
    const M& q = c;
    size_t l = 0, u = 0;
    for (size_t i = 0; i < m.n; i++)
    {
        if (m.k[i] < lo) l++;
        if (m.k[i] <= hi) u++;
    }
    size_t n = u - l;
    vf::check(q.contains(k) == (n != 0), "contains");
    vf::check(q.count(k) == n, "count");
    auto it = q.find(k);
    size_t at = 0;
    for (auto j = q.cbegin(); j != it; ++j) at++;
    vf::check(n == 0 ? at == m.n : (l <= at) & (at < u), "find");
    vf::check(q.lower_bound(k) == cnth(q, l), "lower_bound const");
    vf::check(q.upper_bound(k) == cnth(q, u), "upper_bound const");
    auto f = q.equal_range(k);
    vf::check((f.first == cnth(q, l)) & (f.second == cnth(q, u)), "equal_range const");
    at_pos(c, m, c.lower_bound(k), l, "lower_bound");
    at_pos(c, m, c.upper_bound(k), u, "upper_bound");
    auto e = c.equal_range(k);
    vf::check((e.first == nth(c, l)) & (e.second == nth(c, u)), "equal_range");
    if (n > 1) vf_cover("several entries are equivalent to the key");
}
VF_ENTRY(ctors)
{
    using M = FixedMap<u16, u16, 3>;
    using P = std::pair<u16, u16>;
    Model<Asc> m;
    size_t k = vf::pick(0, 3);
    P src[3];
    for (size_t i = 0; i < k; i++)
    {
        src[i] = P{vf::sym<u16>("k"), vf::sym<u16>("v")};
        if (!m.has(src[i].first)) m.add(src[i].first, src[i].second);
    }
    switch (vf::pick(0, 3))
    {
    case 0: { M c(static_cast<const P*>(src), static_cast<const P*>(src) + k); agree(c, m); break; }
    case 1: { Stream<P> s{src, k}; M c(InIt<P>{&s}, InIt<P>{}); agree(c, m); break; }
    case 2: if (k == 2) { M c{{src[0].first, src[0].second}, {src[1].first, src[1].second}}; agree(c, m); } break;
    case 3: if (k == 2) { auto c = make_fixed_map<u16, u16>({{src[0].first, src[0].second}, {src[1].first, src[1].second}}); vf::check(c.max_size() == 2, "make_fixed_map"); agree(c, m); } break;
    }
    vf_cover("ctors");
}
