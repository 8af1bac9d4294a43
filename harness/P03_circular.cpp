// BOUNDS: FixedCircularDeque<T,CAP> and FixedCircularQueue<T,CAP>, T in {u16, NT}, CAP in {0,1,2,3} (thorough {0,1,3,4}); every size and window displacement up to CAP in either direction, all 16-bit element values symbolic; one operation from every such state, every pair of operations at CAP 2 (thorough 3), incoming ranges up to 4 elements and assignments up to CAP+2
// OUTSIDE: larger capacities except as in the *_big.cpp entries and ranges
#include "seq_ops.h"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
using namespace fixed_containers;
using namespace seq;
template <class T, size_t N> using V = FixedCircularDeque<T, N>;
constexpr auto K = Kind::CIRCULAR;
#ifdef VF_DEEP
constexpr size_t BIG = 4, MID = 3, ROT = 4;
#else
constexpr size_t BIG = 3, MID = 2, ROT = 3;
#endif
VF_ENTRY(u16_a) { run<K, V<u16, BIG>>(BIG, ROT, PUSH_BACK, POP_FRONT, 1); }
VF_ENTRY(u16_b) { run<K, V<u16, BIG>>(BIG, ROT, INSERT, EMPLACE, 1); }
VF_ENTRY(u16_c) { run<K, V<u16, BIG>>(BIG, ROT, INSERT_PTR, INSERT_FWD, 1); }
VF_ENTRY(u16_d) { run<K, V<u16, BIG>>(BIG, ROT, INSERT_IN, INSERT_IL, 1); }
VF_ENTRY(u16_e) { run<K, V<u16, BIG>>(BIG, ROT, ASSIGN_N, ASSIGN_IL, 1); }
VF_ENTRY(u16_f) { run<K, V<u16, BIG>>(BIG, ROT, ERASE, WRITE, 1); }
VF_ENTRY(u16_g) { run<K, V<u16, BIG>>(BIG, ROT, ERASE_VALUE, REMOVE, 1); }
VF_ENTRY(u16_alias) { run<K, V<u16, BIG>>(BIG, ROT, ALIAS_PUSH_BACK, ALIAS_RESIZE, 1); }
VF_ENTRY(u16_h) { run<K, V<u16, BIG>>(0, 0, CTOR_N, CTOR_IL, 1); }
VF_ENTRY(u16_cap0) { run<K, V<u16, 0>>(0, 0, PUSH_BACK, CTOR_IL, 1); }
VF_ENTRY(u16_cap1) { run<K, V<u16, 1>>(1, 1, PUSH_BACK, CTOR_IL, 1); }
VF_ENTRY(u16_two__w9) { run<K, V<u16, MID>>(MID, 1, PUSH_BACK, REMOVE, 2); }
VF_ENTRY(nt_a) { run<K, V<NT, BIG>>(BIG, ROT, PUSH_BACK, POP_FRONT, 1); }
VF_ENTRY(nt_b) { run<K, V<NT, BIG>>(BIG, ROT, INSERT, EMPLACE, 1); }
VF_ENTRY(nt_c) { run<K, V<NT, BIG>>(BIG, ROT, INSERT_PTR, INSERT_FWD, 1); }
VF_ENTRY(nt_d) { run<K, V<NT, BIG>>(BIG, ROT, INSERT_IN, INSERT_IL, 1); }
VF_ENTRY(nt_e) { run<K, V<NT, BIG>>(BIG, ROT, ASSIGN_N, ASSIGN_IL, 1); }
VF_ENTRY(nt_f) { run<K, V<NT, BIG>>(BIG, ROT, ERASE, WRITE, 1); }
VF_ENTRY(nt_g) { run<K, V<NT, BIG>>(BIG, ROT, ERASE_VALUE, REMOVE, 1); }
VF_ENTRY(nt_alias) { run<K, V<NT, BIG>>(BIG, ROT, ALIAS_PUSH_BACK, ALIAS_RESIZE, 1); }
VF_ENTRY(nt_h) { run<K, V<NT, BIG>>(0, 0, CTOR_N, CTOR_IL, 1); }
VF_ENTRY(nt_cap0) { run<K, V<NT, 0>>(0, 0, PUSH_BACK, CTOR_IL, 1); }
VF_ENTRY(nt_cap1) { run<K, V<NT, 1>>(1, 1, PUSH_BACK, CTOR_IL, 1); }
VF_ENTRY(nt_two__w9) { run<K, V<NT, MID>>(MID, 1, PUSH_BACK, REMOVE, 2); }

// FIFO queue that drops the oldest element
template <class T, size_t N>
void queue(size_t ops)
{
    FixedCircularQueue<T, N> q{};
    Seq m;
    for (size_t i = 0; i < ops; i++)
    {
        switch (vf::pick(0, 3, "op"))
        {
        case 0: { u16 x = vf::sym<u16>("x"); T t(x); if (m.n == N) m.pop_front(); q.push(t); m.push_back(x); vf_cover("queue push"); break; }
        case 1: { u16 x = vf::sym<u16>("x"); if (m.n == N) m.pop_front(); q.push(T(x)); m.push_back(x); break; }
        case 2: { u16 x = vf::sym<u16>("x"); if (m.n == N) m.pop_front(); vf::check(val(q.emplace(x)) == x, "emplace returns the new element"); m.push_back(x); break; }
        case 3: if (m.n) { q.pop(); m.pop_front(); vf_cover("queue pop"); } break;
        }
        vf::check(q.size() == m.n, "queue size");
        vf::check(q.empty() == (m.n == 0), "queue empty");
        vf::check(is_full(q) == (m.n == N), "queue is_full");
        if (m.n)
        {
            vf::check(val(q.front()) == m.a[0], "queue front");
            vf::check(val(q.back()) == m.a[m.n - 1], "queue back");
            vf::obs(val(q.front()));
        }
    }
}
VF_ENTRY(queue_u16_1) { queue<u16, 1>(4); }
VF_ENTRY(queue_u16_2) { queue<u16, 2>(6); }
VF_ENTRY(queue_nt_2) { queue<NT, 2>(6); }
VF_ENTRY(queue_nt_3) { queue<NT, 3>(6); }
VF_ENTRY(queue_ctor)
{
    u16 v[3] = {vf::sym<u16>(), vf::sym<u16>(), vf::sym<u16>()};
    FixedCircularQueue<u16, 4> q(v, v + 3);
    for (int i = 0; i < 3; i++) { vf::check(q.front() == v[i], "queue from range"); q.pop(); }
    vf::check(q.empty(), "queue from range");
}
