// BOUNDS: FixedStack<T,CAP>, FixedQueue<T,CAP>, T in {u16, NT}, CAP in {0,1,2,3} (thorough up to 4), every history of up to 7 (thorough 9) push/emplace/pop operations, all values symbolic; bulk construction from ranges up to CAP elements; full drain at the end of each history; equality and ordering of two stacks/queues
// OUTSIDE: longer histories, larger capacities except as in the *_big.cpp entries
#include "types.h"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_stack.hpp"
using namespace fixed_containers;
#ifdef VF_DEEP
constexpr size_t OPS = 9, BIG = 4;
#else
constexpr size_t OPS = 7, BIG = 3;
#endif

template <bool STACK, class C>
void agree(C& c, const Seq& m, size_t cap)
{
    const C& k = c;
    vf::check(k.size() == m.n, "size");
    vf::check(k.empty() == (m.n == 0), "empty");
    vf::check(k.max_size() == cap, "max_size");
    vf::check(C::static_max_size() == cap, "static_max_size");
    vf::check(is_full(k) == (m.n == cap), "is_full");
    if (m.n)
    {
        if constexpr (STACK)
        {
            vf::check(val(c.top()) == m.a[m.n - 1], "top is the newest");
            vf::check(val(k.top()) == m.a[m.n - 1], "top is the newest");
            vf::check(&c.top() == &k.top(), "top");
            vf::obs(val(k.top()));
        }
        else
        {
            vf::check(val(c.front()) == m.a[0], "front is the oldest");
            vf::check(val(k.front()) == m.a[0], "front is the oldest");
            vf::check(val(c.back()) == m.a[m.n - 1], "back is the newest");
            vf::check(val(k.back()) == m.a[m.n - 1], "back is the newest");
            vf::obs(val(k.front()));
        }
    }
}
template <bool STACK, class C>
void mpop(C& c, Seq& m)
{
    c.pop();
    if (STACK) m.n--; else m.pop_front();
}
template <bool STACK, class C, class T>
void history(size_t cap, size_t ops)
{
    C c{};
    Seq m;
    agree<STACK>(c, m, cap);
    size_t n = 0;
    for (size_t i = 0; i < ops; i++)
    {
        switch (vf::pick(0, 2, "op"))
        {
        case 0:
            if (m.n == cap) break;
            {
                u16 x = vf::sym<u16>("x");
                if (i & 1) { T t(x); c.push(t); vf::check(val(t) == x, "pushed object unchanged"); }
                else c.push(T(x));
                m.push_back(x);
                vf_cover("push");
            }
            break;
        case 1:
            if (m.n == cap) break;
            {
                u16 x = vf::sym<u16>("x");
                if constexpr (std::is_void_v<decltype(c.emplace(x))>) c.emplace(x);
                else vf::check(val(c.emplace(x)) == x, "emplace returns the new element");
                m.push_back(x);
                vf_cover("emplace");
            }
            break;
        case 2:
            if (!m.n) { vf_end(); }
            mpop<STACK>(c, m);
            vf_cover("pop");
            break;
        }
        agree<STACK>(c, m, cap);
    }
    // writes through the accessors reach the element
    if (m.n)
    {
        u16 x = vf::sym<u16>("x");
        if constexpr (STACK) { c.top() = T(x); m.a[m.n - 1] = x; }
        else if (vf::coin()) { c.front() = T(x); m.a[0] = x; }
        else { c.back() = T(x); m.a[m.n - 1] = x; }
        vf_cover("write");
    }
    while (m.n) { agree<STACK>(c, m, cap); mpop<STACK>(c, m); }
    agree<STACK>(c, m, cap);
}
template <bool STACK, class C, class T>
void bulk(size_t cap)
{
    size_t k = vf::pick(0, cap);
    u16 xv[8];
    for (size_t i = 0; i < k; i++) xv[i] = vf::sym<u16>("x");
    T src[8];
    for (size_t i = 0; i < k; i++) src[i] = T(xv[i]);
    auto go = [&](C c)
    {
        Seq m;
        for (size_t i = 0; i < k; i++) m.push_back(xv[i]);
        agree<STACK>(c, m, cap);
        if (m.n < cap) { u16 x = vf::sym<u16>("x"); c.push(T(x)); m.push_back(x); }
        while (m.n) { agree<STACK>(c, m, cap); mpop<STACK>(c, m); }
        agree<STACK>(c, m, cap);
        vf_cover("bulk");
    };
    switch (vf::pick(0, 2))
    {
    case 0: go(C(static_cast<const T*>(src), static_cast<const T*>(src) + k)); break;
    case 1: go(C(FwdIt<T>{src}, FwdIt<T>{src + k})); break;
    case 2: { Stream<T> s{src, k}; go(C(InIt<T>{&s}, InIt<T>{})); break; }
    }
}
template <class C>
void compare()
{
    C a{}, b{};
    Seq ma, mb;
    size_t na = vf::pick(0, 2), nb = vf::pick(0, 2), rot = vf::pick(0, 2);
    for (size_t i = 0; i < rot; i++) { a.push(7); }
    for (size_t i = 0; i < rot; i++) { a.pop(); }
    for (size_t i = 0; i < na; i++) { u16 x = vf::sym<u16>(); a.push(x); ma.push_back(x); }
    for (size_t i = 0; i < nb; i++) { u16 x = vf::sym<u16>(); b.push(x); mb.push_back(x); }
    int r = 0;
    for (size_t i = 0; !r && (i < na || i < nb); i++)
        r = i >= na ? -1 : i >= nb ? 1 : ma.a[i] < mb.a[i] ? -1 : ma.a[i] > mb.a[i] ? 1 : 0;
    vf::check((a == b) == (r == 0), "==");
    vf::check((a <=> b) == (r <=> 0), "<=>");
    vf_cover("compare");
}
VF_ENTRY(stack_u16_1) { history<true, FixedStack<u16, 1>, u16>(1, OPS); }
VF_ENTRY(stack_u16_2) { history<true, FixedStack<u16, 2>, u16>(2, OPS); }
VF_ENTRY(stack_u16_b) { history<true, FixedStack<u16, BIG>, u16>(BIG, OPS); }
VF_ENTRY(stack_nt_1) { history<true, FixedStack<NT, 1>, NT>(1, OPS); }
VF_ENTRY(stack_nt_b) { history<true, FixedStack<NT, BIG>, NT>(BIG, OPS); }
VF_ENTRY(queue_u16_1) { history<false, FixedQueue<u16, 1>, u16>(1, OPS); }
VF_ENTRY(queue_u16_2) { history<false, FixedQueue<u16, 2>, u16>(2, OPS); }
VF_ENTRY(queue_u16_b) { history<false, FixedQueue<u16, BIG>, u16>(BIG, OPS); }
VF_ENTRY(queue_nt_1) { history<false, FixedQueue<NT, 1>, NT>(1, OPS); }
VF_ENTRY(queue_nt_b) { history<false, FixedQueue<NT, BIG>, NT>(BIG, OPS); }
VF_ENTRY(cap0)
{
    FixedStack<u16, 0> s{};
    FixedQueue<u16, 0> q{};
    vf::check(s.empty() && is_full(s) && s.size() == 0 && s.max_size() == 0, "cap 0 stack");
    vf::check(q.empty() && is_full(q) && q.size() == 0 && q.max_size() == 0, "cap 0 queue");
}
VF_ENTRY(bulk_stack_u16) { bulk<true, FixedStack<u16, 4>, u16>(4); }
VF_ENTRY(bulk_stack_nt) { bulk<true, FixedStack<NT, 3>, NT>(3); }
VF_ENTRY(bulk_queue_u16) { bulk<false, FixedQueue<u16, 4>, u16>(4); }
VF_ENTRY(bulk_queue_nt) { bulk<false, FixedQueue<NT, 3>, NT>(3); }
VF_ENTRY(compare_stack) { compare<FixedStack<u16, 3>>(); }
VF_ENTRY(compare_queue) { compare<FixedQueue<u16, 3>>(); }
