// BOUNDS: number of key comparisons of find, contains, count, lower_bound, upper_bound and insertion of a present key in FixedMap / FixedSet: 17 keys (thorough 21) with symbolic values in six arrival orders with every key probed after every pair of erasures; 120 (thorough 250) keys in the same orders, runs of erasures at either end and in the middle, probing present and absent keys everywhere
// OUTSIDE: larger trees
#include "types.h"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_set.hpp"
using namespace fixed_containers;
#ifdef VF_DEEP
constexpr size_t BIG = 21, HUGE_N = 250;
#else
constexpr size_t BIG = 17, HUGE_N = 120;
#endif
inline size_t pattern(size_t which, size_t i, size_t n)
{
    switch (which)
    {
    case 0: return i;
    case 1: return n - 1 - i;
    case 2: return i % 2 ? n - 1 - i / 2 : i / 2;                              // outside-in
    case 3: { size_t h = n / 2; return i % 2 ? h + (i + 1) / 2 : h - i / 2; }  // inside-out (odd n)
    case 4: return (i * 5) % n;
    default: return (i * 7 + 3) % n;
    }
}
struct CntLess
{
    static inline size_t n = 0;
    bool operator()(u16 a, u16 b) const { n++; return a < b; }
};
// at most two comparisons per level, 2 log2(n+1) levels
inline void cost(size_t n)
{
    const size_t pairs = CntLess::n / 2;
    vf::check(pairs < 60 && (size_t(1) << pairs) <= (n + 1) * (n + 1), "lookup cost");
}
struct InsSet { template <class C> void operator()(C& c, u16 x) const { c.insert(x); } };
struct InsMap { template <class C> void operator()(C& c, u16 x) const { c.try_emplace(x, u16(1)); } };
template <class I, class C>
void probe(C& c, u16 x, bool present)
{
    const size_t n = c.size();
    CntLess::n = 0; vf::check(c.contains(x) == present, "contains"); cost(n);
    CntLess::n = 0; vf::check((c.find(x) != c.end()) == present, "find"); cost(n);
    CntLess::n = 0; vf::check(c.count(x) == size_t(present), "count"); cost(n);
    CntLess::n = 0; auto l = c.lower_bound(x); cost(n);
    CntLess::n = 0; auto u = c.upper_bound(x); cost(n);
    vf::check((l != u) == present, "bounds");
    if (present) { CntLess::n = 0; I{}(c, x); cost(n); vf::check(c.size() == n, "size"); }
}
template <class C, class I>
void small()
{
    C c{};
    u16 k[BIG];
    for (size_t i = 0; i < BIG; i++)
    {
        k[i] = vf::sym<u16>("k");
        if (i) vf_assume(k[i - 1] < k[i]);
    }
    const size_t w = vf::pick(0, 5, "pattern");
    for (size_t i = 0; i < BIG; i++)
    {
        I{}(c, k[pattern(w, i, BIG)]);
        probe<I>(c, k[pattern(w, 0, BIG)], true);
        probe<I>(c, k[pattern(w, i, BIG)], true);
    }
    bool gone[BIG] = {};
    for (size_t e = 0; e < 2; e++)
    {
        const size_t p = vf::pick(0, BIG - 1, "erase");
        if (gone[p]) vf_end();
        gone[p] = true;
        c.erase(k[p]);
    }
    for (size_t i = 0; i < BIG; i++) probe<I>(c, k[i], !gone[i]);
    vf_cover("lookup cost");
}
VF_ENTRY(cost_set__w8) { small<FixedSet<u16, BIG, CntLess>, InsSet>(); }
VF_ENTRY(cost_map__w8) { small<FixedMap<u16, u16, BIG, CntLess>, InsMap>(); }
template <class C, class I>
void large()
{
    C c{};
    const size_t w = vf::pick(0, 5, "pattern"), N = w == 3 ? HUGE_N - 1 : w == 4 ? HUGE_N - 1 : w == 5 ? HUGE_N - 1 : HUGE_N;
    for (size_t i = 0; i < N; i++) I{}(c, static_cast<u16>(2 * pattern(w, i, N) + 1));
    const size_t size = c.size();
    const size_t where = vf::pick(0, 2, "erased run"), run = size / 2;
    const size_t first = where == 0 ? 0 : where == 1 ? size / 4 : size - run;
    auto it = c.begin();
    for (size_t i = 0; i < first; i++) ++it;
    for (size_t i = 0; i < run; i++) it = c.erase(it);
    vf::check(c.size() == size - run, "size");
    u16 v[HUGE_N];
    size_t n = 0;
    for (auto&& x : c)
    {
        if constexpr (std::is_same_v<I, InsSet>) v[n++] = x;
        else v[n++] = x.first;
    }
    for (size_t i = 0; i < n; i++)
    {
        probe<I>(c, v[i], true);
        probe<I>(c, static_cast<u16>(v[i] + 1), false);
    }
    vf_cover("lookup cost after erasing a run");
}
VF_ENTRY(cost_large_set__w4) { large<FixedSet<u16, HUGE_N, CntLess>, InsSet>(); }
VF_ENTRY(cost_large_map__w4) { large<FixedMap<u16, u16, HUGE_N, CntLess>, InsMap>(); }
