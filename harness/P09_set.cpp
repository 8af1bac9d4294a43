// BOUNDS: FixedSet<K,CAP,Compare,layout,storage>, K in {u16, NT}, layouts {embedded, dedicated colour} x storages {pool, contiguous}, comparators {less, greater, run-time direction, transparent}; up to 4 keys (thorough 5) arriving in every order with all 16-bit keys symbolic, up to 2 erased again; every single operation from every such state, every pair of operations at CAP 3; capacity 0, 1
// OUTSIDE: larger sets except as in the *_big.cpp entries under arbitrary orders (P10 covers deeper trees)
#include "assoc_ops.h"
#include "fixed_containers/fixed_set.hpp"
using namespace fixed_containers;
using namespace assoc;
using fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness;
constexpr auto EMB = RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR;
constexpr auto DED = RedBlackTreeNodeColorCompactness::DEDICATED_COLOR;
#ifdef VF_DEEP
constexpr size_t N = 5;
#else
constexpr size_t N = 4;
#endif
template <class K, size_t C> using PoolE = FixedSet<K, C>;
template <class K, size_t C> using PoolD = FixedSet<K, C, std::less<K>, DED>;
template <class K, size_t C> using ContE = FixedSet<K, C, std::less<K>, EMB, FixedIndexBasedContiguousStorage>;
template <class K, size_t C> using ContD = FixedSet<K, C, std::less<K>, DED, FixedIndexBasedContiguousStorage>;
struct Dyn { bool rev = false; bool operator()(const NT& a, const NT& b) const { return rev ? b < a : a < b; } };
#define SUITE(NAME, NI, ORD, ...)                                                     \
    VF_ENTRY(NAME##_insert__w2) { run<ORD, __VA_ARGS__>(0, NI, 1, INSERT_L, WRITE, 1); }  \
    VF_ENTRY(NAME##_erase__w3) { run<ORD, __VA_ARGS__>(0, N, 1, ERASE_KEY, LOOKUP, 1); }
SUITE(pool_e, N, Asc, PoolE<u16, N>)
SUITE(pool_d, N - 1, Asc, PoolD<u16, N>)
SUITE(cont_d, N, Asc, ContD<NT, N>)
SUITE(cont_e, N - 1, Asc, ContE<u16, N>)
SUITE(greater, N - 1, Desc, FixedSet<NT, N, std::greater<NT>>)
VF_ENTRY(nt_two__w9) { run<Asc, PoolE<NT, 3>>(0, 2, 0, INSERT_L, LOOKUP, 2); }
VF_ENTRY(cont_two__w9) { run<Asc, ContE<u16, 3>>(0, 1, 0, INSERT_L, LOOKUP, 2); }
VF_ENTRY(full_two__w9) { run<Asc, PoolE<u16, 2>>(2, 2, 0, INSERT_L, LOOKUP, 2); }
VF_ENTRY(cap1) { run<Asc, PoolE<u16, 1>>(0, 1, 0, INSERT_L, LOOKUP, 3); }
VF_ENTRY(cap0) { run<Asc, PoolE<u16, 0>>(0, 0, 0, ERASE_KEY, LOOKUP, 1); }
VF_ENTRY(dyn_rev) { using M = FixedSet<NT, 3, Dyn>; run<Desc, M>(0, 3, 1, INSERT_L, LOOKUP, 1, M{Dyn{true}}); }
VF_ENTRY(dyn_fwd) { using M = FixedSet<NT, 3, Dyn>; run<Asc, M>(0, 3, 1, INSERT_L, LOOKUP, 1, M{Dyn{false}}); }
// heterogeneous lookup
struct Q { u16 q; };
struct TLess
{
    using is_transparent = void;
    bool operator()(const u16& a, const u16& b) const { return a < b; }
    bool operator()(const Q& a, const u16& b) const { return a.q < b; }
    bool operator()(const u16& a, const Q& b) const { return a < b.q; }
};
VF_ENTRY(transparent)
{
    using M = FixedSet<u16, 4, TLess>;
    M c{};
    Model<Asc> m;
    build(c, m, 0, 4, 1);
    u16 x = vf::sym<u16>("x");
    Q k{x};
    const M& q = c;
    size_t p = m.find(x), l = m.lower(x), u = m.upper(x);
    at_pos(c, m, c.find(k), p, "find");
    vf::check(q.contains(k) == (p != m.n) && q.count(k) == (p != m.n), "contains");
    vf::check(q.lower_bound(k) == cnth(q, l) && q.upper_bound(k) == cnth(q, u), "bounds const");
    auto f = q.equal_range(k);
    vf::check(f.first == cnth(q, l) && f.second == cnth(q, u), "equal_range const");
    vf_cover("transparent");
}
// a heterogeneous key may be equivalent to several entries
struct Page { u16 lo, hi; };
struct PLess
{
    using is_transparent = void;
    bool operator()(const u16& a, const u16& b) const { return a < b; }
    bool operator()(const Page& a, const u16& b) const { return a.hi < b; }
    bool operator()(const u16& a, const Page& b) const { return a < b.lo; }
};
VF_ENTRY(transparent_page__w9)
{
    using M = FixedSet<u16, 4, PLess>;
    M c{};
    Model<Asc> m;
    build(c, m, 0, 3, 0);
    u16 lo = vf::sym<u16>("lo"), hi = vf::sym<u16>("hi");
    vf_assume(lo <= hi);
    Page k{lo, hi};
    const M& q = c;
    size_t l = 0, u = 0;
    for (size_t i = 0; i < m.n; i++)
    {
        if (m.k[i] < lo) l++;
        if (m.k[i] <= hi) u++;
    }
    size_t n = u - l;
    vf::check(q.contains(k) == (n != 0), "contains");
    vf::check(q.count(k) == n, "count");
    auto it = q.find(k);
    size_t at = 0;
    for (auto j = q.cbegin(); j != it; ++j) at++;
    vf::check(n == 0 ? at == m.n : (l <= at) & (at < u), "find");
    vf::check(q.lower_bound(k) == cnth(q, l), "lower_bound const");
    vf::check(q.upper_bound(k) == cnth(q, u), "upper_bound const");
    auto f = q.equal_range(k);
    vf::check((f.first == cnth(q, l)) & (f.second == cnth(q, u)), "equal_range const");
    if (n > 1) vf_cover("several entries are equivalent to the key");
}
VF_ENTRY(ctors)
{
    using M = FixedSet<u16, 3>;
    Model<Asc> m;
    size_t k = vf::pick(0, 3);
    u16 src[3];
    for (size_t i = 0; i < k; i++)
    {
        src[i] = vf::sym<u16>("k");
        if (!m.has(src[i])) m.add(src[i], 0);
    }
    switch (vf::pick(0, 3))
    {
    case 0: { M c(static_cast<const u16*>(src), static_cast<const u16*>(src) + k); agree(c, m); break; }
    case 1: { Stream<u16> s{src, k}; M c(InIt<u16>{&s}, InIt<u16>{}); agree(c, m); break; }
    case 2: if (k == 2) { M c{src[0], src[1]}; agree(c, m); } break;
    case 3: if (k == 2) { auto c = make_fixed_set<u16>({src[0], src[1]}); vf::check(c.max_size() == 2, "make_fixed_set"); agree(c, m); } break;
    }
    vf_cover("ctors");
}
// the operands of insert/erase may refer to keys of the set itself
VF_ENTRY(alias)
{
    using M = FixedSet<NT, 4>;
    M c{};
    Model<Asc> m;
    build(c, m, 1, 4, 0);
    size_t p = vf::pick(0, m.n - 1);
    const NT& k = *cnth(c, p);
    u16 x = m.k[p];
    switch (vf::pick(0, 2))
    {
    case 0: { auto r = c.insert(k); vf::check(!r.second, "own key present"); at_pos(c, m, r.first, p, "own key"); break; }
    case 1: { vf::check(c.count(k) == 1 && c.contains(k), "own key"); break; }
    case 2: { vf::check(c.erase(k) == 1, "erase own key"); m.erase(p); break; }
    }
    (void)x;
    agree(c, m);
    vf_cover("alias");
}
