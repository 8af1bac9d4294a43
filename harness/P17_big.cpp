// BOUNDS: tracked elements at capacity 260: sizes 255, 256, CAP-1 and CAP, window displaced by 0, 250 and -257, one operation of every kind at positions, counts and sizes 0, 1, 127, 128, 255, 256, 257 and the last two, then destruction; copy, move and swap of such containers
#define VF_BIG 260
#include "seq_life.h"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_vector.hpp"
using namespace fixed_containers;
constexpr size_t N = VF_BIG;
#define BIG(NAME, KD, TPL, ROT)                                                                  \
    VF_ENTRY(big_##NAME##_a__w5) { one<KD, TPL<Tr, N>>(ROT, PUSH_BACK, POP_FRONT, 1); }           \
    VF_ENTRY(big_##NAME##_b__w6) { one<KD, TPL<Tr, N>>(ROT, INSERT, INSERT_IL, 1); }              \
    VF_ENTRY(big_##NAME##_c__w5) { one<KD, TPL<Tr, N>>(ROT, ASSIGN_N, ASSIGN_IL, 1); }            \
    VF_ENTRY(big_##NAME##_d__w6) { one<KD, TPL<Tr, N>>(ROT, ERASE, WRITE, 1); }
BIG(vector, Kind::VECTOR, FixedVector, 0)
BIG(deque, Kind::DEQUE, FixedDeque, 1)
BIG(circular, Kind::CIRCULAR, FixedCircularDeque, 1)
BIG(list, Kind::LIST, FixedList, 0)
