// COVER: own
// BOUNDS: pools of 260 slots: filled, any slot among those at which narrow integers wrap (and its neighbours) released, everything released and refilled; every stored value symbolic
#define VF_BIG 260
#include "types.h"
#include "fixed_containers/fixed_doubly_linked_list.hpp"
#include "fixed_containers/fixed_index_based_storage.hpp"
using namespace fixed_containers;
constexpr size_t N = VF_BIG;
template <class P>
void pool()
{
    using T = typename std::remove_cvref_t<decltype(std::declval<P&>().at(0))>;
    P p{};
    static bool live[N];
    static u16 v[N];
    size_t n = 0;
    auto alloc = [&]
    {
        u16 x = vf::sym<u16>("x");
        size_t i = p.emplace_and_return_index(T(x));
        vf::check(i < N && !live[i], "a free index in range");
        if (i >= N) vf_end();
        live[i] = true;
        v[i] = x;
        n++;
        vf::check(p.full() == (n == N), "full");
    };
    auto agree = [&] { for (size_t i = 0; i < N; i++) if (live[i]) vf::check(val(p.at(i)) == v[i], "a live slot keeps its contents"); };
    for (size_t i = 0; i < N; i++) live[i] = false;
    while (n < N) alloc();
    agree();
    const size_t r = vf::pick(0, N - 1, "r"), step = vf::pick(1, 3, "step");
    for (size_t i = r, k = 0; k < 5; k++, i = (i + step) % N)
    {
        if (!live[i]) continue;
        p.delete_at_and_return_repositioned_index(i);
        live[i] = false;
        n--;
        vf::check(!p.full(), "full");
    }
    agree();
    while (n < N) alloc();
    agree();
    for (size_t i = 0; i < N; i++) { p.delete_at_and_return_repositioned_index(i); live[i] = false; }
    n = 0;
    while (n < N) alloc();
    agree();
    vf_cover("big pool");
}
VF_ENTRY(big_pool_u16) { pool<FixedIndexBasedPoolStorage<u16, N>>(); }
VF_ENTRY(big_pool_nt) { pool<FixedIndexBasedPoolStorage<NT, N>>(); }
