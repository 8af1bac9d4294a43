// BOUNDS: FixedList<T,CAP>, T in {u16, NT}, CAP in {0,1,2,4} (thorough {0,1,3,5}); every size, elements pushed at either end in every pattern with up to 2 further elements erased again (scrambling slot and free-list order), all 16-bit element values symbolic; one operation from every such state, every pair of operations at CAP 2 (thorough 3), range lengths up to 3
// OUTSIDE: larger capacities except as in the *_big.cpp entries; slot orders not reachable by that construction
#include "seq_ops.h"
#include "fixed_containers/fixed_list.hpp"
using namespace fixed_containers;
using namespace seq;
template <class T, size_t N> using V = FixedList<T, N>;
constexpr auto K = Kind::LIST;
#ifdef VF_DEEP
constexpr size_t BIG = 5, MID = 3, ROT = 2;
#else
constexpr size_t BIG = 4, MID = 2, ROT = 2;
#endif
VF_ENTRY(u16_a) { run<K, V<u16, BIG>>(BIG, ROT, PUSH_BACK, POP_FRONT, 1); }
VF_ENTRY(u16_b) { run<K, V<u16, BIG>>(BIG, ROT, INSERT, EMPLACE, 1); }
VF_ENTRY(u16_c) { run<K, V<u16, BIG>>(BIG, ROT, INSERT_PTR, INSERT_FWD, 1); }
VF_ENTRY(u16_d) { run<K, V<u16, BIG>>(BIG, ROT, INSERT_IN, INSERT_IL, 1); }
VF_ENTRY(u16_e) { run<K, V<u16, BIG>>(BIG, ROT, ASSIGN_N, ASSIGN_IL, 1); }
VF_ENTRY(u16_f) { run<K, V<u16, BIG>>(BIG, ROT, ERASE, WRITE, 1); }
VF_ENTRY(u16_g) { run<K, V<u16, BIG>>(BIG, ROT, ERASE_VALUE, REMOVE, 1); }
VF_ENTRY(u16_alias) { run<K, V<u16, BIG>>(BIG, ROT, ALIAS_PUSH_BACK, ALIAS_RESIZE, 1); }
VF_ENTRY(u16_h) { run<K, V<u16, BIG>>(0, 0, CTOR_N, CTOR_IL, 1); }
VF_ENTRY(u16_cap0) { run<K, V<u16, 0>>(0, 0, PUSH_BACK, CTOR_IL, 1); }
VF_ENTRY(u16_cap1) { run<K, V<u16, 1>>(1, 1, PUSH_BACK, CTOR_IL, 1); }
VF_ENTRY(u16_two__w9) { run<K, V<u16, MID>>(MID, 1, PUSH_BACK, REMOVE, 2); }
VF_ENTRY(nt_a) { run<K, V<NT, BIG>>(BIG, ROT, PUSH_BACK, POP_FRONT, 1); }
VF_ENTRY(nt_b) { run<K, V<NT, BIG>>(BIG, ROT, INSERT, EMPLACE, 1); }
VF_ENTRY(nt_c) { run<K, V<NT, BIG>>(BIG, ROT, INSERT_PTR, INSERT_FWD, 1); }
VF_ENTRY(nt_d) { run<K, V<NT, BIG>>(BIG, ROT, INSERT_IN, INSERT_IL, 1); }
VF_ENTRY(nt_e) { run<K, V<NT, BIG>>(BIG, ROT, ASSIGN_N, ASSIGN_IL, 1); }
VF_ENTRY(nt_f) { run<K, V<NT, BIG>>(BIG, ROT, ERASE, WRITE, 1); }
VF_ENTRY(nt_g) { run<K, V<NT, BIG>>(BIG, ROT, ERASE_VALUE, REMOVE, 1); }
VF_ENTRY(nt_alias) { run<K, V<NT, BIG>>(BIG, ROT, ALIAS_PUSH_BACK, ALIAS_RESIZE, 1); }
VF_ENTRY(nt_h) { run<K, V<NT, BIG>>(0, 0, CTOR_N, CTOR_IL, 1); }
VF_ENTRY(nt_cap0) { run<K, V<NT, 0>>(0, 0, PUSH_BACK, CTOR_IL, 1); }
VF_ENTRY(nt_cap1) { run<K, V<NT, 1>>(1, 1, PUSH_BACK, CTOR_IL, 1); }
VF_ENTRY(nt_two__w9) { run<K, V<NT, MID>>(MID, 1, PUSH_BACK, REMOVE, 2); }
