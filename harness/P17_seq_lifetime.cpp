// BOUNDS: FixedVector, FixedDeque, FixedCircularDeque, FixedList, FixedStack, FixedQueue, FixedCircularQueue of a tracked element type (every construction, destruction, copy, move, assignment and read is checked against a registry of live objects), copyable and move-only; capacity 4 and 1; every size, internal rotation up to CAP, free-list permutation reachable by two extra elements; one operation from every such state (thorough two), every call form including construction, copy/move construction and assignment over any contents, self-assignment and swap; then destruction
// OUTSIDE: elements whose constructors throw; capacities other than these and 260
// ASSUME: element operations do not throw
#include "seq_life.h"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_vector.hpp"
using namespace fixed_containers;
using namespace seq;
#ifdef VF_DEEP
constexpr size_t CAP = 4, OPS = 2;
#else
constexpr size_t CAP = 4, OPS = 1;
#endif

// two containers: copies, moves, swap
template <Kind K, class C>
void two(size_t maxrot, size_t n1, size_t n2)
{
    Box<C> a, b;
    Seq ma, mb;
    build<K>(a.make(), ma, n1, maxrot);
    size_t how = vf::pick(0, 6, "how");
    constexpr bool COPY = std::is_copy_constructible_v<typename C::value_type>;
    if (how == 0)
    {
        if constexpr (COPY)
        {
            b.make(static_cast<const C&>(a.get()));
            owns(a, ma.n, ma.n, "copying leaves the source elements alive");
            owns(b, ma.n, ma.n, "a copy owns its own elements");
            agree<K>(a.get(), ma);
            agree<K>(b.get(), ma);
            vf_cover("copy construct");
        }
        else vf_end();
    }
    else if (how == 1)
    {
        b.make(std::move(a.get()));
        owns(b, ma.n, a.live(), "move construction transfers every element");
        vf::check(a.live() == a.get().size(), "moved-from container still owns exactly what it reports");
        agree<K>(b.get(), ma);
        vf_cover("move construct");
    }
    else if (how == 2)
    {
        C& r = a.get();
        if constexpr (COPY)
        {
            r = *&r;
            agree<K>(r, ma);
            owns(a, ma.n, 0, "self-assignment");
            vf_cover("self-assign");
        }
        vf::check(r.size() == ma.n, "size");
        a.kill();
        owns(a, 0, 0, "nothing leaks");
        vf_end();
    }
    else
    {
        build<K>(b.make(), mb, n2, maxrot ? 1 : 0);
        if (how == 3)
        {
            if constexpr (COPY)
            {
                b.get() = static_cast<const C&>(a.get());
                owns(a, ma.n, ma.n, "copying leaves the source elements alive");
                owns(b, ma.n, ma.n, "copy assignment destroys the old elements and owns the new");
                agree<K>(a.get(), ma);
                agree<K>(b.get(), ma);
                vf_cover("copy assign");
            }
            else vf_end();
        }
        else if (how == 4)
        {
            b.get() = std::move(a.get());
            owns(b, ma.n, a.live(), "move assignment destroys the old elements and owns the new");
            vf::check(a.live() == a.get().size(), "moved-from container still owns exactly what it reports");
            agree<K>(b.get(), ma);
            vf_cover("move assign");
        }
        else if (how == 5)
        {
            std::swap(a.get(), b.get());
            owns(a, mb.n, ma.n, "swap");
            owns(b, ma.n, mb.n, "swap");
            agree<K>(a.get(), mb);
            agree<K>(b.get(), ma);
            vf_cover("swap");
        }
        else
        {
            // moved-from containers can be assigned to, cleared and refilled
            b.get() = std::move(a.get());
            a.get().clear();
            owns(a, 0, ma.n, "cleared after a move");
            a.get().emplace_back(u16{5});
            owns(a, 1, ma.n, "refilled after a move");
            a.get() = std::move(b.get());
            owns(a, ma.n, b.live(), "moved back");
            agree<K>(a.get(), ma);
            vf_cover("move back");
        }
    }
    if (vf::coin("order")) { a.kill(); b.kill(); } else { b.kill(); a.kill(); }
    owns(a, 0, 0, "nothing leaks");
}
// move-only elements: every operation that exists for them
template <Kind K, class C>
void moveonly(size_t maxrot)
{
    Box<C> b;
    C& c = b.make();
    Seq m;
    build<K>(c, m, C::static_max_size(), maxrot);
    auto nth = [&](size_t p) { auto it = c.cbegin(); for (size_t i = 0; i < p; i++) ++it; return it; };
    switch (vf::pick(0, 8, "op"))
    {
    case 0: if (m.n) { c.pop_back(); m.n--; } break;
    case 1:
        if constexpr (K != Kind::VECTOR) { if (m.n) { c.pop_front(); m.pop_front(); } }
        break;
    case 2:
        if (m.n) { size_t p = vf::pick(0, m.n - 1, "p"); c.erase(nth(p)); m.erase(p); }
        break;
    case 3: { size_t p = vf::pick(0, m.n, "p"), q = vf::pick(p, m.n, "q"); c.erase(nth(p), nth(q)); m.erase(p, q - p); break; }
    case 4: c.clear(); m.clear(); break;
    case 5: erase_if(c, [](const typename C::value_type& t) { return (val(t) & 1) != 0; }); m.remove_odd(); break;
    case 6: if (m.n < C::static_max_size()) { u16 x = vf::sym<u16>("x"); c.push_back(typename C::value_type(x)); m.push_back(x); } break;
    case 7:
        if (m.n < C::static_max_size())
        {
            u16 x = vf::sym<u16>("x");
            size_t p = vf::pick(0, m.n, "p");
            auto it = c.cbegin();
            for (size_t i = 0; i < p; i++) ++it;
            c.emplace(it, x);
            m.insert(p, x);
        }
        break;
    case 8:
        if (m.n < C::static_max_size())
        {
            u16 x = vf::sym<u16>("x");
            size_t p = vf::pick(0, m.n, "p");
            auto it = c.cbegin();
            for (size_t i = 0; i < p; i++) ++it;
            c.insert(it, typename C::value_type(x));
            m.insert(p, x);
        }
        break;
    }
    owns(b, m.n, 0, "one live element per position");
    agree<K>(c, m);
    b.kill();
    owns(b, 0, 0, "nothing leaks");
}
#define KIND(NAME, TPL, KD, ROT)                                                            \
    VF_ENTRY(NAME##_push) { one<KD, TPL<Tr, CAP>>(ROT, PUSH_BACK, POP_FRONT, OPS); }         \
    VF_ENTRY(NAME##_insert) { one<KD, TPL<Tr, CAP>>(ROT, INSERT, EMPLACE, OPS); }            \
    VF_ENTRY(NAME##_range__w5) { one<KD, TPL<Tr, CAP>>(ROT ? 1 : 0, INSERT_PTR, INSERT_IL, 1); }          \
    VF_ENTRY(NAME##_assign) { one<KD, TPL<Tr, CAP>>(ROT ? 1 : 0, ASSIGN_N, ASSIGN_IL, OPS); }            \
    VF_ENTRY(NAME##_erase) { one<KD, TPL<Tr, CAP>>(ROT, ERASE, WRITE, OPS); }                \
    VF_ENTRY(NAME##_remove) { one<KD, TPL<Tr, CAP>>(ROT, ERASE_VALUE, REMOVE, OPS); }        \
    VF_ENTRY(NAME##_ctor) { one<KD, TPL<Tr, CAP>>(0, CTOR_N, CTOR_IL, 1); }                  \
    VF_ENTRY(NAME##_alias) { one<KD, TPL<Tr, CAP>>(ROT, ALIAS_PUSH_BACK, ALIAS_RESIZE, OPS); } \
    VF_ENTRY(NAME##_copy) { two<KD, TPL<Tr, CAP>>(ROT, CAP, CAP); }                          \
    VF_ENTRY(NAME##_mo) { moveonly<KD, TPL<TrMove, CAP>>(ROT); }                             \
    VF_ENTRY(NAME##_momove) { two<KD, TPL<TrMove, CAP>>(ROT, CAP, CAP); }                    \
    VF_ENTRY(NAME##_cap1__w9) { one<KD, TPL<Tr, 1>>(ROT ? 1 : 0, PUSH_BACK, ALIAS_RESIZE, 2); }

KIND(vector, FixedVector, Kind::VECTOR, 0)
KIND(deque, FixedDeque, Kind::DEQUE, CAP)
KIND(circ, FixedCircularDeque, Kind::CIRCULAR, CAP)
KIND(list, FixedList, Kind::LIST, 2)

// adapters: any history, then destruction
template <class C, bool STACK, bool CIRC>
void adapter(size_t ops)
{
    Box<C> b;
    C& c = b.make();
    size_t n = 0;
    for (size_t i = 0; i < ops; i++)
    {
        switch (vf::pick(0, 4, "op"))
        {
        case 0: if (n == CAP && !CIRC) break; { Tr t(u16{1}); c.push(t); } n += n < CAP; break;
        case 1: if (n == CAP && !CIRC) break; c.push(Tr(u16{2})); n += n < CAP; break;
        case 2: if (n == CAP && !CIRC) break; c.emplace(u16{3}); n += n < CAP; break;
        case 3: if (n) { c.pop(); n--; } break;
        case 4:
        {
            C d(c);
            vf::check(Live::n == 2 * n, "a copy owns its own elements");
            c = std::move(d);
            vf::check(b.live() == n, "assignment");
            break;
        }
        }
        owns(b, n, 0, "one live element per position");
    }
    b.kill();
    owns(b, 0, 0, "nothing leaks");
}
VF_ENTRY(stack) { adapter<FixedStack<Tr, CAP>, true, false>(5); }
VF_ENTRY(queue) { adapter<FixedQueue<Tr, CAP>, false, false>(5); }
VF_ENTRY(cqueue) { adapter<FixedCircularQueue<Tr, CAP>, false, true>(5); }
