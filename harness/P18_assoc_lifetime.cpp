// BOUNDS: FixedMap, FixedSet, FixedUnorderedMap, FixedUnorderedSet (symbolic hash), EnumMap with a tracked key and value type (every construction, destruction, copy, move, assignment and read is checked against a registry of live objects), and move-only mapped values; capacity 3 (thorough 4); any 0..3 distinct symbolic keys, one erased again; every single operation in every call form; copy/move construction and assignment over any contents, self-assignment and swap, reuse of moved-from containers; then destruction
// OUTSIDE: elements whose operations throw; capacities other than these and 260
// ASSUME: element operations do not throw
#include "enum_types.h"
#include "assoc_life.h"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
using namespace fixed_containers;
using namespace assoc;
#ifdef VF_DEEP
constexpr size_t CAP = 4, N = 3, X = 1;
#else
constexpr size_t CAP = 3, N = 2, X = 0;
#endif
template <class Ord, class C>
void two(size_t n1, size_t n2, size_t extra, size_t hlo, size_t hhi)
{
    Box<C> a, b;
    Model<Ord> ma, mb;
    build(a.make(), ma, 0, n1, extra);
    size_t how = vf::pick(hlo, hhi, "how");
    constexpr bool COPY = std::is_copy_constructible_v<C>;
    auto moved_from = [&](Box<C>& x) { vf::check(x.live() == x.get().size() * per<C>(), "moved-from container still owns exactly what it reports"); };
    if (how == 0)
    {
        if constexpr (COPY)
        {
            b.make(static_cast<const C&>(a.get()));
            owns(a, ma.n, ma.n, "copying leaves the source entries alive");
            owns(b, ma.n, ma.n, "a copy owns its own entries");
            agree(a.get(), ma);
            agree(b.get(), ma);
            vf_cover("copy construct");
        }
        else vf_end();
    }
    else if (how == 1)
    {
        b.make(std::move(a.get()));
        owns(b, ma.n, a.get().size(), "move construction transfers every entry");
        moved_from(a);
        agree(b.get(), ma);
        vf_cover("move construct");
    }
    else if (how == 2)
    {
        if constexpr (COPY)
        {
            C& r = a.get();
            r = *&r;
            agree(r, ma);
            owns(a, ma.n, 0, "self-assignment");
            vf_cover("self-assign");
        }
        a.kill();
        owns(a, 0, 0, "nothing leaks");
        vf_end();
    }
    else
    {
        build(b.make(), mb, 0, n2, 0);
        if (how == 3)
        {
            if constexpr (COPY)
            {
                b.get() = static_cast<const C&>(a.get());
                owns(a, ma.n, ma.n, "copying leaves the source entries alive");
                owns(b, ma.n, ma.n, "copy assignment destroys the old entries and owns the new");
                agree(a.get(), ma);
                agree(b.get(), ma);
                vf_cover("copy assign");
            }
            else vf_end();
        }
        else if (how == 4)
        {
            b.get() = std::move(a.get());
            owns(b, ma.n, a.get().size(), "move assignment destroys the old entries and owns the new");
            moved_from(a);
            agree(b.get(), ma);
            vf_cover("move assign");
        }
        else if (how == 5)
        {
            std::swap(a.get(), b.get());
            owns(a, mb.n, ma.n, "swap");
            owns(b, ma.n, mb.n, "swap");
            agree(a.get(), mb);
            agree(b.get(), ma);
            vf_cover("swap");
        }
        else
        {
            // a moved-from container can be cleared and used again
            b.get() = std::move(a.get());
            a.get().clear();
            owns(a, 0, ma.n, "cleared after a move");
            Model<Ord> mc;
            u16 x = symkey<typename C::key_type>();
            mc.add(x, IS_MAP<C> ? 5 : 0);
            if constexpr (IS_MAP<C>) a.get().try_emplace(mk<typename C::key_type>(x), u16{5});
            else a.get().insert(mk<typename C::key_type>(x));
            owns(a, 1, ma.n, "refilled after a move");
            agree(a.get(), mc);
            agree(b.get(), ma);
            vf_cover("reuse after move");
        }
    }
    if (vf::coin("order")) { a.kill(); b.kill(); } else { b.kill(); a.kill(); }
    owns(a, 0, 0, "nothing leaks");
}
// move-only mapped values
template <class Ord, class C>
void moveonly(size_t n)
{
    using K = typename C::key_type;
    Box<C> b;
    C& c = b.make();
    Model<Ord> m;
    size_t k = vf::pick(0, n, "n");
    for (size_t i = 0; i < k; i++)
    {
        u16 x = symkey<K>(), y = vf::sym<u16>("v");
        if (m.has(x)) vf_end();
        m.add(x, y);
        c.try_emplace(mk<K>(x), y);
    }
    owns(b, m.n, 0, "one live entry per key");
    u16 x = symkey<K>(), y = vf::sym<u16>("v");
    size_t p = m.find(x);
    bool present = p != m.n;
    switch (vf::pick(0, 5, "op"))
    {
    case 0:
        if (!present && m.n == C::static_max_size()) vf_end();
        c.try_emplace(mk<K>(x), y);
        if (!present) m.add(x, y);
        break;
    case 1:
        if (!present && m.n == C::static_max_size()) vf_end();
        c.insert_or_assign(mk<K>(x), TrMove(y));
        if (!present) m.add(x, y); else m.v[p] = y;
        break;
    case 2: c.erase(mk<K>(x)); if (present) m.erase(p); break;
    case 3: c.clear(); m.n = 0; break;
    case 4:
    {
        Box<C> d;
        d.make(std::move(c));
        owns(d, m.n, c.size(), "moved");
        c.clear();
        c = std::move(d.get());
        owns(b, m.n, d.get().size(), "moved back");
        d.kill();
        break;
    }
    case 5:
        if (!present && m.n == C::static_max_size()) vf_end();
        { TrMove& r = c[mk<K>(x)]; r = TrMove(y); }
        if (!present) m.add(x, y); else m.v[p] = y;
        break;
    }
    owns(b, m.n, 0, "one live entry per key");
    agree(c, m);
    b.kill();
    owns(b, 0, 0, "nothing leaks");
}
#define SUITE(NAME, ORD, ...)                                                     \
    VF_ENTRY(NAME##_insert__w3) { one<ORD, __VA_ARGS__>(0, N, 0, INSERT_L, IOA_HINT); }  \
    VF_ENTRY(NAME##_insert2__w3) { one<ORD, __VA_ARGS__>(0, N, 0, TRY_L, WRITE); }  \
    VF_ENTRY(NAME##_erase__w3) { one<ORD, __VA_ARGS__>(0, N + 1, X, ERASE_KEY, LOOKUP); } \
    VF_ENTRY(NAME##_copy__w2) { two<ORD, __VA_ARGS__>(N, 0, 1, 0, 2); } \
    VF_ENTRY(NAME##_assign__w2) { two<ORD, __VA_ARGS__>(N, 2, 0, 3, 6); }
template <class K, class V> using Map = FixedMap<K, V, CAP>;
template <class K, class V> using CMap = FixedMap<K, V, CAP, std::less<K>, fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR>;
template <class K, class V> using UMap = FixedUnorderedMap<K, V, CAP, H16, std::equal_to<K>, CAP>;
SUITE(map, Asc, Map<Tr, Tr>)
SUITE(set, Asc, FixedSet<Tr, CAP>)
SUITE(umap, Ins, UMap<Tr, Tr>)
SUITE(uset, Ins, FixedUnorderedSet<Tr, CAP, H16, std::equal_to<Tr>, CAP + 1>)
SUITE(enummap, Asc, EnumMap<ES, Tr>)
using COL = fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness;
SUITE(map_contig, Asc, FixedMap<Tr, Tr, CAP, std::less<Tr>, COL::EMBEDDED_COLOR, FixedIndexBasedContiguousStorage>)
SUITE(set_contig, Asc, FixedSet<Tr, CAP, std::less<Tr>, COL::DEDICATED_COLOR, FixedIndexBasedContiguousStorage>)
VF_ENTRY(map_kd__w3) { one<Asc, FixedMap<Tr, u16, CAP, std::less<Tr>, COL::DEDICATED_COLOR, FixedIndexBasedPoolStorage>>(0, N + 1, 1, ERASE_KEY, CLEAR); }
VF_ENTRY(map_kv__w3) { one<Asc, CMap<u16, Tr>>(0, N, 1, INSERT_L, CLEAR); }
VF_ENTRY(map_mo) { moveonly<Asc, Map<u16, TrMove>>(N); }
VF_ENTRY(umap_mo) { moveonly<Ins, UMap<u16, TrMove>>(N); }
VF_ENTRY(enummap_mo) { moveonly<Asc, EnumMap<ES, TrMove>>(N); }
