// BOUNDS: FixedVector<T,CAP>, T in {u16 (trivially copyable), NT (non-trivial copy/move/destructor)}, CAP in {0,1,3,5}; every size 0..CAP and all 16-bit element values symbolic; one operation from every state (CAP 3 and 5), every sequence of two operations (CAP 2; thorough: CAP 3), range lengths up to 3
// OUTSIDE: capacities above 5 (thorough 6) except 260 and 65540 as in P01_vector_big.cpp, histories that are not equivalent to "any size, then the stated number of operations"; a vector's state is fully given by its size and elements
#include "seq_ops.h"
#include "fixed_containers/fixed_vector.hpp"
using namespace fixed_containers;
using namespace seq;
template <class T, size_t N> using V = FixedVector<T, N>;
constexpr auto K = Kind::VECTOR;
#ifdef VF_DEEP
constexpr size_t BIG = 6, MID = 3;
#else
constexpr size_t BIG = 5, MID = 2;
#endif
VF_ENTRY(u16_a) { run<K, V<u16, BIG>>(BIG, 0, PUSH_BACK, EMPLACE, 1); }
VF_ENTRY(u16_b) { run<K, V<u16, BIG>>(BIG, 0, INSERT_PTR, INSERT_IL, 1); }
VF_ENTRY(u16_c) { run<K, V<u16, BIG>>(BIG, 0, ASSIGN_N, ASSIGN_IL, 1); }
VF_ENTRY(u16_d) { run<K, V<u16, BIG>>(BIG, 0, ERASE, WRITE, 1); }
VF_ENTRY(u16_e) { run<K, V<u16, BIG>>(BIG, 0, ERASE_VALUE, ERASE_IF, 1); }
VF_ENTRY(u16_f) { run<K, V<u16, BIG>>(0, 0, CTOR_N, CTOR_IL, 1); }
VF_ENTRY(nt_a) { run<K, V<NT, BIG>>(BIG, 0, PUSH_BACK, EMPLACE, 1); }
VF_ENTRY(nt_b) { run<K, V<NT, BIG>>(BIG, 0, INSERT_PTR, INSERT_IL, 1); }
VF_ENTRY(nt_c) { run<K, V<NT, BIG>>(BIG, 0, ASSIGN_N, ASSIGN_IL, 1); }
VF_ENTRY(nt_d) { run<K, V<NT, BIG>>(BIG, 0, ERASE, WRITE, 1); }
VF_ENTRY(nt_e) { run<K, V<NT, BIG>>(BIG, 0, ERASE_VALUE, ERASE_IF, 1); }
VF_ENTRY(nt_f) { run<K, V<NT, BIG>>(0, 0, CTOR_N, CTOR_IL, 1); }
VF_ENTRY(u16_cap0) { run<K, V<u16, 0>>(0, 0, PUSH_BACK, CTOR_IL, 1); }
VF_ENTRY(nt_cap0) { run<K, V<NT, 0>>(0, 0, PUSH_BACK, CTOR_IL, 1); }
VF_ENTRY(u16_cap1) { run<K, V<u16, 1>>(1, 0, PUSH_BACK, CTOR_IL, 2); }
VF_ENTRY(nt_cap1) { run<K, V<NT, 1>>(1, 0, PUSH_BACK, CTOR_IL, 2); }
VF_ENTRY(u16_two__w9) { run<K, V<u16, MID>>(MID, 0, PUSH_BACK, ERASE_IF, 2); }
VF_ENTRY(nt_two__w9) { run<K, V<NT, MID>>(MID, 0, PUSH_BACK, ERASE_IF, 2); }
VF_ENTRY(u16_alias) { run<K, V<u16, BIG>>(BIG, 0, ALIAS_PUSH_BACK, ALIAS_RESIZE, 1); }
VF_ENTRY(nt_alias) { run<K, V<NT, BIG>>(BIG, 0, ALIAS_PUSH_BACK, ALIAS_RESIZE, 1); }
