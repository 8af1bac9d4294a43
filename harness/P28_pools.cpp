// COVER: own
// BOUNDS: FixedIndexBasedPoolStorage and FixedIndexBasedContiguousStorage of capacity 0..4 over u8, u16, a 24-byte trivially copyable struct, NT and a lifetime-tracked type: every history of 11 allocate/release steps (thorough 14), releasing any live slot; every stored value symbolic; free-chain transfer between pools followed by up to 3 more steps; FixedDoublyLinkedList (size_t and u8 indices) of capacity 3: every history of 5 (thorough 6) insert-anywhere/delete/delete-range/copy/move/assign steps; IndexOrValueStorage special members; allocation from a full pool
// OUTSIDE: releasing a slot that is not in use (a caller error); element constructors that throw
#include "types.h"
#include "fixed_containers/fixed_doubly_linked_list.hpp"
#include "fixed_containers/fixed_index_based_storage.hpp"
#include "fixed_containers/index_or_value_storage.hpp"
using namespace fixed_containers;
#ifdef VF_DEEP
constexpr size_t STEPS = 14, LSTEPS = 6;
#else
constexpr size_t STEPS = 11, LSTEPS = 5;
#endif
struct Big { u64 a; u16 v; u64 c; Big(u16 x) : a(~u64(x)), v(x), c(x) {} Big() : Big(0) {} };
inline u16 val(const Big& b) { vf_check(b.a == ~u64(b.v) && b.c == b.v, "all bytes of an entry are kept"); return b.v; }
inline u16 val(u8 x) { return x; }
template <class T> u16 fresh() { if constexpr (std::is_same_v<T, u8>) return vf::sym<u8>("v"); else return vf::sym<u16>("v"); }

template <class P, size_t C>
struct PoolModel
{
    bool live[C + 1] = {};
    u16 v[C + 1] = {};
    size_t n = 0;
};
template <class P, size_t C>
void agree(P& p, const PoolModel<P, C>& m)
{
    const P& q = p;
    vf::check(q.full() == (m.n == C), "full exactly when every slot is in use");
    for (size_t i = 0; i < C; i++)
        if (m.live[i]) vf::check(val(p.at(i)) == m.v[i] && &p.at(i) == &q.at(i), "a live slot keeps its contents");
}
template <class T, class P, size_t C>
void alloc(P& p, PoolModel<P, C>& m)
{
    u16 x = fresh<T>();
    size_t i = p.emplace_and_return_index(static_cast<T>(x));
    vf::check(i < C, "an allocated index is in range");
    if (i >= C) vf_end();
    vf::check(!m.live[i], "an index in use is not handed out again");
    m.live[i] = true;
    m.v[i] = x;
    m.n++;
    if (m.n == C) vf_cover("full");
}
template <bool CONTIGUOUS, class P, size_t C>
void release(P& p, PoolModel<P, C>& m, size_t k)
{
    // k-th live slot
    size_t i = 0;
    for (;; i++)
        if (m.live[i] && k-- == 0) break;
    size_t r = p.delete_at_and_return_repositioned_index(i);
    m.n--;
    if constexpr (CONTIGUOUS)
    {
        vf::check(r == m.n, "the repositioned entry is the last one");
        m.v[i] = m.v[m.n];
        m.live[m.n] = false;
    }
    else
    {
        vf::check(r == i, "no other entry is repositioned");
        m.live[i] = false;
    }
    vf_cover("release");
}
template <bool CONTIGUOUS, class T, size_t C, class P>
void history(size_t steps)
{
    Live::n = 0;
    P p;
    PoolModel<P, C> m;
    agree(p, m);
    for (size_t s = 0; s < steps; s++)
    {
        if (m.n < C && (m.n == 0 || vf::coin("alloc"))) alloc<T>(p, m);
        else if (m.n > 0) release<CONTIGUOUS>(p, m, vf::pick(0, m.n - 1, "victim"));
        else break;
        agree(p, m);
        if constexpr (std::is_same_v<T, Tr>) vf::check(Live::n == m.n, "exactly the live slots hold a live object");
    }
    // every released slot can be reused
    while (m.n < C) { alloc<T>(p, m); agree(p, m); }
    while (m.n > 0) { release<CONTIGUOUS>(p, m, 0); agree(p, m); }
    vf_cover("drained");
}
template <class T, size_t C> void pool(size_t steps) { history<false, T, C, FixedIndexBasedPoolStorage<T, C>>(steps); }
template <class T, size_t C> void cont(size_t steps) { history<true, T, C, FixedIndexBasedContiguousStorage<T, C>>(steps); }
VF_ENTRY(pool_u16__w2) { pool<u16, 3>(STEPS); }
VF_ENTRY(pool_u8__w2) { pool<u8, 3>(STEPS); }
VF_ENTRY(pool_big__w2) { pool<Big, 3>(STEPS); }
VF_ENTRY(pool_nt__w2) { pool<NT, 3>(STEPS); }
VF_ENTRY(pool_tr__w3) { pool<Tr, 3>(STEPS); }
VF_ENTRY(pool_4__w3) { pool<u16, 4>(STEPS - 2); }
VF_ENTRY(pool_small) { switch (vf::pick(0, 2)) { case 0: pool<u16, 1>(STEPS); break; case 1: pool<NT, 2>(STEPS); break; case 2: pool<u16, 0>(2); break; } }
VF_ENTRY(cont_u16__w2) { cont<u16, 3>(STEPS); }
VF_ENTRY(cont_big__w2) { cont<Big, 3>(STEPS); }
VF_ENTRY(cont_nt__w2) { cont<NT, 3>(STEPS); }
VF_ENTRY(cont_tr__w3) { cont<Tr, 3>(STEPS - 2); }
VF_ENTRY(cont_small) { switch (vf::pick(0, 1)) { case 0: cont<u16, 1>(STEPS); break; case 1: cont<NT, 2>(STEPS); break; } }
template <class T, size_t C, class P>
void overflow()
{
    P p;
    PoolModel<P, C> m;
    while (m.n < C) alloc<T>(p, m);
    if (C > 0 && vf::coin()) { release<false>(p, m, vf::pick(0, C - 1)); alloc<T>(p, m); }
    vf_expect_abort(1);
    size_t i = p.emplace_and_return_index(static_cast<T>(u16(1)));
    vf_expect_abort(0);
    vf::obs(i);
    vf::check(false, "allocating from a full pool is reported");
}
VF_ENTRY(pool_overflow)
{
    switch (vf::pick(0, 2))
    {
    case 0: overflow<u16, 2, FixedIndexBasedPoolStorage<u16, 2>>(); break;
    case 1: overflow<NT, 1, FixedIndexBasedPoolStorage<NT, 1>>(); break;
    case 2: overflow<u16, 0, FixedIndexBasedPoolStorage<u16, 0>>(); break;
    }
}
// transferring the free chain: the destination hands out the same slots as the source from then on
template <class T, size_t C>
void transfer(size_t steps, size_t more)
{
    using P = FixedIndexBasedPoolStorage<T, C>;
    P p, q;
    PoolModel<P, C> m, w;
    for (size_t s = 0; s < steps; s++)
    {
        if (m.n < C && (m.n == 0 || vf::coin("alloc"))) alloc<T>(p, m);
        else release<false>(p, m, vf::pick(0, m.n - 1, "victim"));
    }
    // the destination may have been used before, but holds no values
    if (vf::coin("used")) { alloc<T>(q, w); alloc<T>(q, w); release<false>(q, w, vf::pick(0, 1)); release<false>(q, w, 0); }
    q.set_freelist_state_from_other(p);
    for (size_t i = 0; i < C; i++) { w.live[i] = m.live[i]; w.v[i] = m.v[i]; if (m.live[i]) std::construct_at(&q.at(i), p.at(i)); }
    w.n = m.n;
    agree(q, w);
    agree(p, m);
    for (size_t s = 0; s < more; s++)
    {
        if (w.n < C && (w.n == 0 || vf::coin("alloc")))
        {
            u16 x = fresh<T>();
            size_t i = p.emplace_and_return_index(static_cast<T>(x)), j = q.emplace_and_return_index(static_cast<T>(x));
            vf::check(i == j && i < C && !w.live[i], "both pools hand out the same free slot");
            w.live[i] = m.live[i] = true; w.v[i] = m.v[i] = x; w.n++; m.n++;
        }
        else { size_t k = vf::pick(0, w.n - 1); release<false>(p, m, k); release<false>(q, w, k); }
        agree(q, w);
        agree(p, m);
    }
    while (w.n < C) { alloc<T>(q, w); agree(q, w); }
    vf_cover("transfer");
}
VF_ENTRY(transfer_u16__w2) { transfer<u16, 3>(5, 3); }
VF_ENTRY(transfer_nt__w2) { transfer<NT, 3>(5, 3); }

// ------------------------------------------------------------ the doubly linked list over a pool
template <class L, size_t C>
struct ListModel { size_t idx[C + 1]; u16 v[C + 1]; size_t n = 0; };
template <class L, size_t C>
void agree(const L& l, const ListModel<L, C>& m)
{
    vf::check(l.size() == m.n && l.full() == (m.n == C), "size and full");
    size_t i = l.front_index(), prev = C;
    for (size_t k = 0; k < m.n; k++)
    {
        vf::check(i == m.idx[k] && i < C, "the chain visits the entries in order");
        if (i >= C) vf_end();
        vf::check(l.prev_of(i) == prev, "backward link");
        vf::check(val(l.at(i)) == m.v[k], "entry contents");
        prev = i;
        i = l.next_of(i);
    }
    vf::check(i == C && l.next_of(prev) == C && l.back_index() == prev, "the chain ends at the sentinel");
}
template <class T, size_t C, class IX>
void list(size_t steps)
{
    using L = fixed_doubly_linked_list_detail::FixedDoublyLinkedList<T, C, IX>;
    Live::n = 0;
    L l;
    ListModel<L, C> m;
    auto at = [&](size_t k) { return static_cast<IX>(k == m.n ? C : m.idx[k]); };
    auto ins = [&](size_t pos, size_t i, u16 x) {
        vf::check(i < C, "index in range");
        for (size_t k = 0; k < m.n; k++) vf::check(m.idx[k] != i, "slot not in use");
        for (size_t k = m.n; k > pos; k--) { m.idx[k] = m.idx[k - 1]; m.v[k] = m.v[k - 1]; }
        m.idx[pos] = i; m.v[pos] = x; m.n++;
    };
    for (size_t s = 0; s < steps; s++)
    {
        u16 x = fresh<T>();
        switch (vf::pick(0, 8, "op"))
        {
        case 0: if (m.n < C) { size_t k = vf::pick(0, m.n); ins(k, l.emplace_before_index_and_return_index(at(k), static_cast<T>(x)), x); } break;
        case 1: if (m.n < C && m.n > 0) { size_t k = vf::pick(0, m.n - 1); ins(k + 1, l.emplace_after_index_and_return_index(at(k), static_cast<T>(x)), x); } break;
        case 2: if (m.n < C) ins(m.n, l.emplace_back_and_return_index(static_cast<T>(x)), x); break;
        case 3: if (m.n < C) ins(0, l.emplace_front_and_return_index(static_cast<T>(x)), x); break;
        case 4:
            if (m.n > 0)
            {
                size_t a = vf::pick(0, m.n - 1), b = vf::pick(a, m.n);
                size_t e = at(b);
                size_t r = b == a + 1 && vf::coin() ? l.delete_at_and_return_next_index(at(a)) : l.delete_range_and_return_next_index(at(a), at(b));
                vf::check(r == e, "deletion returns the following entry");
                for (size_t k = b; k < m.n; k++) { m.idx[k - (b - a)] = m.idx[k]; m.v[k - (b - a)] = m.v[k]; }
                m.n -= b - a;
                vf_cover("list delete");
            }
            break;
        case 5: l.clear(); m.n = 0; break;
        case 6: { L d(l); agree(static_cast<const L&>(d), m); l.clear(); l = d; vf_cover("list copy"); break; }
        case 7: { L d(std::move(l)); agree(static_cast<const L&>(d), m); l.clear(); l = std::move(d); break; }
        case 8: { L d; d.emplace_back_and_return_index(static_cast<T>(x)); d.emplace_front_and_return_index(static_cast<T>(x)); d = l; agree(static_cast<const L&>(d), m); d.clear(); break; }
        }
        agree(static_cast<const L&>(l), m);
        if constexpr (std::is_same_v<T, Tr>) vf::check(Live::n == m.n, "exactly the entries are live objects");
    }
    vf_cover("list");
}
VF_ENTRY(list_u16__w5) { list<u16, 3, size_t>(LSTEPS); }
VF_ENTRY(list_u8__w5) { list<u8, 3, u8>(LSTEPS); }
VF_ENTRY(list_nt__w5) { list<NT, 3, u16>(LSTEPS - 1); }
VF_ENTRY(list_tr__w5) { list<Tr, 3, u8>(LSTEPS - 2); }

// ------------------------------------------------------------ IndexOrValueStorage
template <class T>
void iov()
{
    using S = index_or_value_storage_detail::IndexOrValueStorage<T>;
    u16 x = fresh<T>();
    T t{static_cast<T>(x)};
    S a(t);
    S b(std::in_place, t);
    S c(T{static_cast<T>(x)});
    vf::check(val(a.value) == x && val(b.value) == x && val(c.value) == x, "holds the value");
    S d(a);
    vf::check(val(d.value) == x && val(a.value) == x, "copy");
    S e(std::move(a));
    vf::check(val(e.value) == x, "move");
    S z;
    z.index = vf::sym<size_t>();
    size_t w = z.index;
    vf::check(z.index == w, "holds an index");
    for (S* s : {&a, &b, &c, &d, &e}) std::destroy_at(std::addressof(s->value));
    vf_cover("iov");
}
VF_ENTRY(iov) { switch (vf::pick(0, 3)) { case 0: iov<u16>(); break; case 1: iov<NT>(); break; case 2: iov<Big>(); break; case 3: Live::n = 0; iov<Tr>(); vf::check(Live::n == 0, "no object leaked"); break; } }
