// COVER: own
// BOUNDS: capacity 260 and 270: containers of 255, 256 or 260 elements that are equal or differ (symbolically) in one element at a position at which narrow integers wrap, or in length by 1 or by 256
#define VF_BIG 270
#include "assoc_ops.h"
#include "hash_types.h"
#include "seq_ops.h"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"
using namespace fixed_containers;
template <class A, class B>
void ordered(const A& a, const B& b, int r)
{
    vf::check((a == b) == (r == 0), "==");
    vf::check((a != b) == (r != 0), "!=");
    vf::check((a < b) == (r < 0), "<");
    vf::check((a <= b) == (r <= 0), "<=");
    vf::check((a > b) == (r > 0), ">");
    vf::check((a >= b) == (r >= 0), ">=");
}
constexpr size_t LENS[] = {4, 255, 256, 260};
template <class A, class B>
void sq()
{
    const size_t n1 = LENS[vf::pick(0, 3, "n1")], n2 = LENS[vf::pick(0, 3, "n2")];
    A a{};
    B b{};
    using T = typename A::value_type;
    size_t least = n1 < n2 ? n1 : n2;
    size_t d = vf::pick(0, least, "differ");  // == least: no difference
    u16 x = 0, y = 0;
    if (d < least) { x = vf::sym<u8>("x"); y = vf::sym<u8>("y"); }
    auto fill = [&](auto& c, size_t n, u16 z)
    {
        for (size_t i = 0; i < n; i++) c.push_back(T(static_cast<u16>(i == d && d < least ? z : (i * 7 & 0x3f))));
    };
    fill(a, n1, x);
    fill(b, n2, y);
    int r = x < y ? -1 : x > y ? 1 : n1 < n2 ? -1 : n1 > n2 ? 1 : 0;
    ordered(a, b, r);
    ordered(b, a, -r);
    vf_cover("big compare");
}
VF_ENTRY(big_vector__w2) { sq<FixedVector<u16, 260>, FixedVector<u16, 270>>(); }
VF_ENTRY(big_deque__w2) { sq<FixedDeque<u16, 260>, FixedDeque<u16, 260>>(); }
VF_ENTRY(big_circ__w2) { sq<FixedCircularDeque<NT, 260>, FixedCircularDeque<NT, 260>>(); }
VF_ENTRY(big_list__w2) { sq<FixedList<NT, 260>, FixedList<NT, 270>>(); }
VF_ENTRY(big_string__w2) { sq<FixedString<260>, FixedString<270>>(); }
template <class C>
void as()
{
    const size_t n1 = LENS[vf::pick(0, 3, "n1")], n2 = LENS[vf::pick(0, 3, "n2")];
    using K = typename C::key_type;
    auto add = [](C& c, size_t i, u16 v) { if constexpr (assoc::IS_MAP<C>) c.try_emplace(K(static_cast<u16>(i * 2)), v); else c.insert(K(static_cast<u16>(i * 2 + v))); };
    C a{}, b{};
    const size_t least = n1 < n2 ? n1 : n2, d = vf::pick(0, least, "differ");
    const u16 x = d < least && vf::coin("x") ? 1 : 0;
    for (size_t i = 0; i < n1; i++) add(a, i, 0);
    for (size_t i = n2; i-- > 0;) add(b, i, i == d ? x : 0);
    const bool same = n1 == n2 && x == 0;
    vf::check((a == b) == same && (b == a) == same && (a != b) == !same, "==");
    vf_cover("big compare maps");
}
VF_ENTRY(big_map__w2) { as<FixedMap<u16, u16, 260>>(); }
VF_ENTRY(big_set__w2) { as<FixedSet<NT, 260>>(); }
VF_ENTRY(big_umap__w2) { as<FixedUnorderedMap<u16, u16, 260, H16>>(); }
VF_ENTRY(big_uset__w2) { as<FixedUnorderedSet<u16, 260, H16>>(); }
