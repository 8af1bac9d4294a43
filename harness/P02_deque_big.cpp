// BOUNDS: capacity 260: sizes 255, 256, CAP-1 and CAP, window displaced by 0, 250 and -257, one operation at positions, counts and sizes 0, 1, 127, 128, 255, 256, 257 and the last two, symbolic new values; and a container of 65540 one-byte elements filled across 65535, read, erased from and popped there
#define VF_BIG 260
#include "seq_ops.h"
#include "fixed_containers/fixed_deque.hpp"
using namespace fixed_containers;
using namespace seq;
template <class T, size_t N> using V = FixedDeque<T, N>;
constexpr auto K = Kind::DEQUE;
constexpr size_t N = VF_BIG;
VF_ENTRY(big_u16_a__w3) { run<K, V<u16, N>>(N, 1, PUSH_BACK, POP_FRONT, 1); }
VF_ENTRY(big_u16_b__w3) { run<K, V<u16, N>>(N, 1, INSERT, INSERT_IL, 1); }
VF_ENTRY(big_u16_c__w3) { run<K, V<u16, N>>(N, 1, ASSIGN_N, ASSIGN_IL, 1); }
VF_ENTRY(big_u16_d__w3) { run<K, V<u16, N>>(N, 1, ERASE, WRITE, 1); }
VF_ENTRY(big_u16_f) { run<K, V<u16, N>>(N, 0, ERASE_IF, ERASE_IF, 1); }
VF_ENTRY(big_u16_e) { run<K, V<u16, N>>(0, 0, CTOR_N, CTOR_IN, 1); }
VF_ENTRY(big_nt_a__w3) { run<K, V<NT, N>>(N, 1, PUSH_BACK, INSERT_IL, 1); }
VF_ENTRY(big_nt_b__w3) { run<K, V<NT, N>>(N, 1, ERASE, RESIZE_V, 1); }
#include "huge.h"
VF_ENTRY(big_huge__w9) { huge::seq<V<u8, huge::N>>(); }
