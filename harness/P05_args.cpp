// COVER: own
// BOUNDS: FixedStack, FixedQueue and FixedCircularQueue of non-trivial and move-only elements, capacity 2, any 0-2 symbolic elements: one push or emplace with an lvalue, an rvalue or constructor arguments; one inserting operation with elements that have both a two-argument and a list constructor, or that are constructible from anything
#include "greedy.h"
#include "args_seq.h"
#include "fixed_containers/fixed_circular_queue.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_stack.hpp"
using namespace fixed_containers;
template <class C> auto& newest(C& c) { if constexpr (requires { c.top(); }) return c.top(); else return c.back(); }
template <class C, bool STACK, bool CIRC, bool COPY>
void go()
{
    using T = typename C::value_type;
    constexpr size_t N = 2;
    C c{};
    u16 m[N + 1];
    size_t n = vf::pick(0, N, "n");
    if (n == N && !CIRC) vf_end();
    for (size_t i = 0; i < n; i++) { m[i] = vf::sym<u16>("e"); c.push(T(m[i])); }
    const u16 x = vf::sym<u16>("x");
    vf_assume(x != 0xDEAD && x != 0xDDDD);
    T a(x);
    bool moved = true;
    switch (vf::pick(0, COPY ? 3 : 2, "op"))
    {
    case 0: c.push(std::move(a)); break;
    case 1: { T& r = c.emplace(std::move(a)); vf::check(r.v == x && &r == &newest(c), "emplace returns the new element"); break; }
    case 2:
        moved = false;
        if constexpr (COPY) c.push(a);
        else c.emplace(static_cast<u8>(x >> 8), static_cast<u8>(x));
        break;
    default: if constexpr (COPY) { moved = false; c.emplace(a); }
    }
    vf::check(a.v == (moved ? 0xDEAD : x), "arguments");
    m[n++] = x;
    size_t lo = n > N ? 1 : 0;
    vf::check(c.size() == n - lo, "size");
    while (!c.empty() && lo < n)
    {
        if constexpr (STACK) { vf::check(c.top().v == m[n - 1], "top"); n--; }
        else { vf::check(c.front().v == m[lo] && c.back().v == m[n - 1], "front and back"); lo++; }
        c.pop();
    }
    vf::check(c.empty() && lo == n, "empty");
    vf_cover("arguments");
}
VF_ENTRY(args_stack) { go<FixedStack<NT, 2>, true, false, true>(); }
VF_ENTRY(args_stack_mo) { go<FixedStack<args::MO, 2>, true, false, false>(); }
VF_ENTRY(args_queue) { go<FixedQueue<NT, 2>, false, false, true>(); }
VF_ENTRY(args_queue_mo) { go<FixedQueue<args::MO, 2>, false, false, false>(); }
VF_ENTRY(args_circular) { go<FixedCircularQueue<NT, 2>, false, true, true>(); }
VF_ENTRY(args_circular_mo) { go<FixedCircularQueue<args::MO, 2>, false, true, false>(); }
VF_ENTRY(greedy_stack) { greedy::adapter<FixedStack<greedy::G, 3>>(); }
VF_ENTRY(greedy_queue) { greedy::adapter<FixedQueue<greedy::G, 3>>(); }
VF_ENTRY(any_stack) { greedy::any_adapter<FixedStack<greedy::A, 3>>(); }
VF_ENTRY(any_queue) { greedy::any_adapter<FixedQueue<greedy::A, 3>>(); }
VF_ENTRY(any_circular_queue) { greedy::any_adapter<FixedCircularQueue<greedy::A, 3>>(); }
