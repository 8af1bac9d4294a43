#pragma once
#include "assoc_ops.h"
#include "hash_types.h"
#include "seq_ops.h"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_deque_raw_view.hpp"
#include "fixed_containers/fixed_doubly_linked_list_raw_view.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_map_raw_view.hpp"
#include "fixed_containers/fixed_red_black_tree_view.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_map_raw_view.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_unordered_set_raw_view.hpp"
using namespace fixed_containers;
using namespace assoc;
// an element of the given size and alignment, identified by its first byte(s)
template <size_t S, size_t A>
struct B
{
    alignas(A) u8 b[S] = {};
    B() = default;
    B(u16 x) { b[0] = static_cast<u8>(x); if constexpr (S > 1) b[1] = static_cast<u8>(x >> 8); }
    u16 id() const { if constexpr (S > 1) return static_cast<u16>(b[0] | b[1] << 8); else return b[0]; }
    bool operator==(const B& o) const { return id() == o.id(); }
    bool operator<(const B& o) const { return id() < o.id(); }
};
static_assert(sizeof(B<12, 4>) == 12 && alignof(B<12, 4>) == 4 && sizeof(B<48, 16>) == 48);
template <size_t S, size_t A> u16 val(const B<S, A>& x) { return x.id(); }
namespace assoc
{
template <size_t A> struct Key<B<1, A>>
{
    static B<1, A> mk(u16 x) { return B<1, A>(x); }
    static u16 arg(u16 x) { return x; }
    static u16 sym() { return vf::sym<u8>("k"); }
};
}  // namespace assoc
template <class K> struct HBk { u64 operator()(const K& k) const { return k.b[0]; } };
template <class V, class C, class F>
void same(const V& view, const C& c, F f)
{
    vf::check(view.size() == c.size(), "the view reports the container's size");
    size_t i = 0, n = c.size();
    auto it = c.begin();
    for (auto v = view.begin(); !(v == view.end()); ++v, ++i)
    {
        vf::check(i < n, "the view visits only live elements");
        if (i >= n) return;
        f(v, it);
        ++it;
    }
    vf::check(i == n, "the view visits every live element");
    if (n)
    {
        auto v = view.begin();
        auto o = v++;
        vf::check(o == view.begin() && (n > 1) == !(v == view.end()), "view iterator increments");
        vf_cover("view");
    }
    else vf::check(view.begin() == view.end(), "empty view");
}
template <class C>
void elements(const C& c, const auto& view)
{
    same(view, c, [](const auto& v, const auto& it) { vf::check(static_cast<const void*>(*v) == static_cast<const void*>(&*it), "the view shows the address of each element in order"); });
}
template <class C>
void entries(const C& c, const auto& view)
{
    same(view, c, [](const auto& v, const auto& it)
    {
        auto&& e = *v;
        vf::check(static_cast<const void*>(e.key()) == static_cast<const void*>(&it->first), "the view shows the address of each key in order");
        vf::check(static_cast<const void*>(e.value()) == static_cast<const void*>(&it->second), "the view shows the address of each mapped value in order");
        vf::check(v->key() == e.key() && v->value() == e.value(), "arrow");
    });
}
