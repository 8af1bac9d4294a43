// COVER: own
// BOUNDS: capacity 260: filled with 255, 256 or 260 symbolic elements, then drained completely (queues also after displacing the window by 250), stack, queue and circular queue
#define VF_BIG 260
#include "types.h"
#include "fixed_containers/fixed_circular_queue.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_stack.hpp"
using namespace fixed_containers;
constexpr size_t N = VF_BIG;
template <class C>
void go(bool stack)
{
    using T = typename C::value_type;
    C c{};
    static u16 v[N];
    if (!stack && vf::coin("rot")) for (size_t i = 0; i < 250; i++) { c.push(T(u16{1})); c.pop(); }
    const size_t sizes[] = {255, 256, N};
    const size_t n = sizes[vf::pick(0, 2, "n")];
    for (size_t i = 0; i < n; i++)
    {
        v[i] = vf::sym<u16>("x");
        if (i & 1) c.push(T(v[i])); else c.emplace(v[i]);
        vf::check(c.size() == i + 1, "size");
        vf::check(is_full(c) == (i + 1 == N), "is_full");
    }
    for (size_t i = 0; i < n; i++)
    {
        if constexpr (requires { c.top(); }) vf::check(val(c.top()) == v[n - 1 - i], "top is the newest");
        else
        {
            vf::check(val(c.front()) == v[i], "front is the oldest");
            vf::check(val(c.back()) == v[n - 1], "back is the newest");
        }
        c.pop();
        vf::check(c.size() == n - 1 - i && c.empty() == (i + 1 == n), "size");
    }
    vf_cover("big drain");
}
VF_ENTRY(big_stack) { go<FixedStack<u16, N>>(true); }
VF_ENTRY(big_stack_nt) { go<FixedStack<NT, N>>(true); }
VF_ENTRY(big_queue) { go<FixedQueue<u16, N>>(false); }
VF_ENTRY(big_queue_nt) { go<FixedQueue<NT, N>>(false); }
VF_ENTRY(big_cqueue) { go<FixedCircularQueue<u16, N>>(false); }
