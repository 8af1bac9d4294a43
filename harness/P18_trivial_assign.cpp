// BOUNDS: FixedMap, FixedSet, FixedUnorderedMap, FixedUnorderedSet, EnumMap with tracked keys/values whose assignment is trivial while their construction and destruction are not; capacity 3; any 0..2 distinct symbolic keys; one operation in every call form, copy and move construction, self-assignment; assignment of one container to another is where the known finding lies
// OUTSIDE: larger capacities
// ASSUME: element operations do not throw
#include "assoc_life.h"
#include "enum_types.h"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
using namespace fixed_containers;
constexpr size_t CAP = 3;
template <class C>
bool all_alive(Box<C>& b)
{
    for (auto&& e : b.get())
    {
        if constexpr (IS_MAP<C>) { if (!Live::has(std::addressof(e.second))) return false; }
        else if (!Live::has(std::addressof(e))) return false;
    }
    return true;
}
template <class Ord, class C>
void construct()
{
    Box<C> a, b;
    Model<Ord> m;
    build(a.make(), m, 0, 2, 0);
    if (vf::coin("move")) b.make(std::move(a.get()));
    else b.make(static_cast<const C&>(a.get()));
    vf::check(b.live() == m.n * per<C>(), "one live entry per key");
    vf::check(a.live() == a.get().size() * per<C>(), "the source owns exactly what it reports");
    agree(b.get(), m);
    C& r = b.get();
    r = *&r;
    vf::check(b.live() == m.n * per<C>(), "self-assignment");
    agree(b.get(), m);
    b.kill();
    a.kill();
    vf::check(Live::n == 0, "nothing leaks");
    vf_cover("constructed");
}
template <class Ord, class C>
void other_slots(bool move)
{
    Box<C> a, b;
    Model<Ord> ma, mb;
    build(a.make(), ma, 0, 2, 0);
    build(b.make(), mb, 0, 1, 0);
    if (move) b.get() = std::move(a.get());
    else b.get() = static_cast<const C&>(a.get());
    vf::check(b.get().size() == ma.n, "size after assignment");
    vf::check(b.live() == ma.n * per<C>() && all_alive(b), "assigned container owns one live entry per key");
    agree(b.get(), ma);
    b.kill();
    a.kill();
    vf::check(Live::n == 0, "nothing leaks");
}
#define SUITE(NAME, ORD, ...)                                                                 \
    VF_ENTRY(ta_##NAME##_insert) { one<ORD, __VA_ARGS__>(0, 2, 0, INSERT_L, IOA_HINT); }       \
    VF_ENTRY(ta_##NAME##_insert2) { one<ORD, __VA_ARGS__>(0, 2, 0, TRY_L, WRITE); }            \
    VF_ENTRY(ta_##NAME##_erase) { one<ORD, __VA_ARGS__>(0, 2, 0, ERASE_KEY, LOOKUP); }         \
    VF_ENTRY(ta_##NAME##_construct) { construct<ORD, __VA_ARGS__>(); }                         \
    VF_ENTRY(ta_##NAME##_copy_assign) { other_slots<ORD, __VA_ARGS__>(false); }                \
    VF_ENTRY(ta_##NAME##_move_assign) { other_slots<ORD, __VA_ARGS__>(true); }
SUITE(map, Asc, FixedMap<u16, TrTA, CAP>)
SUITE(set, Asc, FixedSet<TrTA, CAP>)
SUITE(umap, Ins, FixedUnorderedMap<u16, TrTA, CAP, H16, std::equal_to<u16>, CAP>)
SUITE(uset, Ins, FixedUnorderedSet<TrTA, CAP, H16, std::equal_to<TrTA>, CAP + 1>)
SUITE(enummap, Asc, EnumMap<ES, TrTA>)
