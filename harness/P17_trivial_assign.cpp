// BOUNDS: FixedVector, FixedDeque, FixedCircularDeque, FixedList of tracked elements whose assignment is trivial while their construction and destruction are not; capacity 3; every size and rotation, one operation in every call form from every such state, copy and move construction, self-assignment; assignment of one container to another is where the known finding lies
// OUTSIDE: larger capacities
// ASSUME: element operations do not throw
#include "seq_life.h"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_vector.hpp"
using namespace fixed_containers;
constexpr size_t CAP = 3;
template <Kind K, class C>
void construct()
{
    Box<C> a, b;
    Seq m;
    build<K>(a.make(), m, CAP, K == Kind::VECTOR ? 0 : 1);
    if (vf::coin("move")) b.make(std::move(a.get()));
    else b.make(static_cast<const C&>(a.get()));
    vf::check(b.live() == m.n, "one live element per position");
    vf::check(a.live() == a.get().size(), "the source owns exactly what it reports");
    agree<K>(b.get(), m);
    C& r = b.get();
    r = *&r;
    vf::check(b.live() == m.n, "self-assignment");
    agree<K>(b.get(), m);
    b.kill();
    a.kill();
    vf::check(Live::n == 0, "nothing leaks");
    vf_cover("constructed");
}
// the two containers hold the same number of elements in the same slots: assignment is element by element
template <Kind K, class C>
void same_slots()
{
    Box<C> a, b;
    size_t n = vf::pick(0, CAP, "n");
    a.make();
    b.make();
    Seq m;
    for (size_t i = 0; i < n; i++)
    {
        u16 x = vf::sym<u16>("x");
        a.get().push_back(typename C::value_type(x));
        b.get().push_back(typename C::value_type(u16{1}));
        m.push_back(x);
    }
    if (vf::coin("move")) b.get() = std::move(a.get());
    else b.get() = static_cast<const C&>(a.get());
    vf::check(b.live() == n, "one live element per position");
    vf::check(a.live() == a.get().size(), "the source owns exactly what it reports");
    agree<K>(b.get(), m);
    b.kill();
    a.kill();
    vf::check(Live::n == 0, "nothing leaks");
}
template <Kind K, class C>
void other_slots(bool move)
{
    Box<C> a, b;
    Seq ma, mb;
    build<K>(a.make(), ma, CAP, 0);
    build<K>(b.make(), mb, CAP, 0);
    if (move) b.get() = std::move(a.get());
    else b.get() = static_cast<const C&>(a.get());
    vf::check(b.get().size() == ma.n, "size after assignment");
    vf::check(b.live() == ma.n, "assigned container owns one live element per position");
    agree<K>(b.get(), ma);
    b.kill();
    a.kill();
    vf::check(Live::n == 0, "nothing leaks");
}
#define KIND(NAME, TPL, KD, ROT)                                                                   \
    VF_ENTRY(ta_##NAME##_push) { one<KD, TPL<TrTA, CAP>>(ROT, PUSH_BACK, POP_FRONT, 1); }           \
    VF_ENTRY(ta_##NAME##_insert) { one<KD, TPL<TrTA, CAP>>(ROT, INSERT, EMPLACE, 1); }              \
    VF_ENTRY(ta_##NAME##_range) { one<KD, TPL<TrTA, CAP>>(ROT ? 1 : 0, INSERT_PTR, INSERT_IL, 1); } \
    VF_ENTRY(ta_##NAME##_assign) { one<KD, TPL<TrTA, CAP>>(ROT ? 1 : 0, ASSIGN_N, ASSIGN_IL, 1); }  \
    VF_ENTRY(ta_##NAME##_erase) { one<KD, TPL<TrTA, CAP>>(ROT, ERASE, WRITE, 1); }                  \
    VF_ENTRY(ta_##NAME##_remove) { one<KD, TPL<TrTA, CAP>>(ROT, ERASE_VALUE, REMOVE, 1); }          \
    VF_ENTRY(ta_##NAME##_construct) { construct<KD, TPL<TrTA, CAP>>(); }                            \
    VF_ENTRY(ta_##NAME##_same) { same_slots<KD, TPL<TrTA, CAP>>(); }                                \
    VF_ENTRY(ta_##NAME##_copy_assign) { other_slots<KD, TPL<TrTA, CAP>>(false); }                   \
    VF_ENTRY(ta_##NAME##_move_assign) { other_slots<KD, TPL<TrTA, CAP>>(true); }
KIND(vector, FixedVector, Kind::VECTOR, 0)
KIND(deque, FixedDeque, Kind::DEQUE, CAP)
KIND(circ, FixedCircularDeque, Kind::CIRCULAR, CAP)
KIND(list, FixedList, Kind::LIST, 2)
