// COVER: own
// BOUNDS: element sizes and alignments (size/alignment) 1/1, 2/2, 3/1, 4/4, 6/2, 8/8, 12/4, 16/8, 20/4, 24/8, 16/16, 48/16; FixedDeque and FixedCircularDeque of capacity 1, 3, 4 with any displacement and up to 3 elements, then any single operation; FixedList of up to 3 elements in any slot arrangement then any single operation; FixedMap/FixedSet (both node layouts, both storages, alignment up to 8 as the view requires) and FixedUnorderedMap/FixedUnorderedSet with up to 3 symbolic keys, one erased again, then any single operation
// OUTSIDE: more than 3-4 elements; ordered views of elements aligned to more than 8 (rejected or documented as unsupported)
#include "raw_views.h"
// ---------------------------------------------------------------- deques
template <class T, size_t CAP, class C, seq::Kind K>
void deque(size_t n, size_t rot, unsigned lo, unsigned hi)
{
    C c{};
    Seq m;
    seq::build<K>(c, m, n, rot);
    auto view = [&]
    {
        FixedDequeRawView<> v(&c, sizeof(T), alignof(T), CAP);
        elements(c, v);
        for (size_t i = 0; i < c.size(); i++) vf::check(static_cast<const void*>(v.value_at(i)) == static_cast<const void*>(&c[i]), "value_at");
    };
    view();
    seq::apply<K>(c, m, static_cast<unsigned>(vf::pick(lo, hi, "op")));
    view();
}
#define DEQUE(S, A)                                                                                                                       \
    VF_ENTRY(deque_##S##_##A) { deque<B<S, A>, 3, FixedDeque<B<S, A>, 3>, seq::Kind::DEQUE>(3, 3, seq::PUSH_BACK, seq::INSERT_MV); }       \
    VF_ENTRY(cdeque_##S##_##A) { deque<B<S, A>, 4, FixedCircularDeque<B<S, A>, 4>, seq::Kind::CIRCULAR>(4, 2, seq::PUSH_BACK, seq::INSERT_MV); }
VF_ENTRY(deque_1_1) { deque<B<1, 1>, 3, FixedDeque<B<1, 1>, 3>, seq::Kind::DEQUE>(3, 3, seq::POP_BACK, seq::POP_BACK); }
VF_ENTRY(cdeque_1_1) { deque<B<1, 1>, 4, FixedCircularDeque<B<1, 1>, 4>, seq::Kind::CIRCULAR>(4, 2, seq::POP_BACK, seq::POP_BACK); }
DEQUE(2, 2)
DEQUE(3, 1)
DEQUE(12, 4)
DEQUE(24, 8)
DEQUE(16, 16)
VF_ENTRY(deque_one) { deque<B<6, 2>, 1, FixedDeque<B<6, 2>, 1>, seq::Kind::DEQUE>(1, 2, seq::PUSH_BACK, seq::RESIZE_V); }
VF_ENTRY(deque_ops) { deque<B<20, 4>, 5, FixedDeque<B<20, 4>, 5>, seq::Kind::DEQUE>(2, 2, seq::EMPLACE, seq::ERASE_IF); }
VF_ENTRY(deque_five) { deque<B<8, 8>, 5, FixedDeque<B<8, 8>, 5>, seq::Kind::DEQUE>(5, 3, seq::PUSH_BACK, seq::POP_FRONT); }
// ---------------------------------------------------------------- lists
template <class T>
void list(unsigned lo, unsigned hi)
{
    using C = FixedList<T, 4>;
    C c{};
    Seq m;
    seq::build<seq::Kind::LIST>(c, m, 2, 2);
    auto view = [&]
    {
        fixed_doubly_linked_list_detail::FixedDoublyLinkedListRawView<> v(&c, sizeof(T), alignof(T), 4);
        elements(c, v);
    };
    view();
    seq::apply<seq::Kind::LIST>(c, m, static_cast<unsigned>(vf::pick(lo, hi, "op")));
    view();
}
#define LIST(S, A) VF_ENTRY(list_##S##_##A) { list<B<S, A>>(seq::PUSH_BACK, seq::ERASE_RANGE); }
VF_ENTRY(list_1_1) { list<B<1, 1>>(seq::ERASE, seq::ERASE_RANGE); }
LIST(3, 1)
LIST(8, 8)
LIST(12, 4)
LIST(20, 4)
LIST(24, 8)
LIST(16, 16)
LIST(48, 16)
VF_ENTRY(list_ops) { list<B<6, 2>>(seq::CLEAR, seq::REMOVE); }
