// BOUNDS: circular indexing: full 64-bit symbolic start with index and offset up to 2^10 away (2^16 in the thorough tier) for range sizes 1,2,3,5,8,10,11,100; decrements by the 32 largest 64-bit and 63-bit offsets for sizes 2,3,5,8,10; full 64-bit index and offset for sizes 1 and 2^40 (thorough: also 2 and 8); symbolic range size up to 7, positions and offsets up to 15 (thorough: 127 and 255); integer ranges: full 64-bit symbolic bounds and probe; range iterators: symbolic 64-bit start, lengths up to 4, every pair of positions; filtered range iterators: lengths up to 4, every predicate; safe integer helpers: full range of 8, 16, 32 and 64-bit operands; rounding-up division: 16-bit dividends (thorough: 64-bit) with divisors 1,2,3,7,64,255 all 8-bit unsigned and 6-bit signed operands; align_up: 64-bit values with alignments 1,2,4,8,16,64, 16-bit values with 3 and 12, and all 6-bit operands
// OUTSIDE: 64-bit division by a symbolic divisor wider than 8 bits
// ASSUME: results are representable (otherwise there is no mathematical value to return)
#include "types.h"
#include "fixed_containers/circular_indexing.hpp"
#include "fixed_containers/circular_integer_range_iterator.hpp"
#include "fixed_containers/filtered_integer_range_iterator.hpp"
#include "fixed_containers/fixed_red_black_tree_view.hpp"
#include "fixed_containers/int_math.hpp"
#include "fixed_containers/integer_range.hpp"
#include "fixed_containers/integer_range_iterator.hpp"
#include "fixed_containers/random_access_iterator_transformer.hpp"
using namespace fixed_containers;
using i8 = std::int8_t; using i16 = std::int16_t; using i32 = std::int32_t;
// ---------------------------------------------------------------- circular indexing
void inc(u64 start, u64 size, u64 index, u64 n)
{
    auto r = circular_indexing::increment_index_with_wraparound(IntegerRange::closed_open(start, start + size), index, n);
    vf::check(r.integer >= start && r.integer < start + size, "wrapped position is inside the range");
    vf::check(r.cycles >= 0 && static_cast<u64>(r.cycles) <= ~u64(0) / size, "cycle count");
    vf::check(static_cast<u64>(r.cycles) * size + (r.integer - start) == (index - start) + n, "cycles and position add up to the unwrapped position");
    vf::obs(r.integer);
}
void dec(u64 start, u64 size, u64 index, u64 n)
{
    auto r = circular_indexing::decrement_index_with_wraparound(IntegerRange::closed_open(start, start + size), index, n);
    vf::check(r.integer >= start && r.integer < start + size, "wrapped position is inside the range");
    i64 lim = static_cast<i64>((u64(1) << 63) / size / 1) ;
    if (size == 1) lim = INT64_MAX;
    vf::check(r.cycles <= lim && r.cycles >= -lim - 1, "cycle count");
    vf::check(static_cast<u64>(r.cycles) * size + (r.integer - start) == (index - start) - n, "cycles and position add up to the unwrapped position");
    vf::obs(r.integer);
}
// full 64-bit start; distance of the index from the start and the offset of BITS bits each
template <u64 SIZE, int BITS>
void wrap()
{
    u64 start = vf::sym<u64>("start"), off = vf::sym<u32>("off") & ((u64(1) << BITS) - 1), n = vf::sym<u32>("n") & ((u64(1) << BITS) - 1);
    vf_assume(start <= ~u64(0) - SIZE - (u64(1) << (BITS + 2)));
    if (vf::coin("inc")) { inc(start, SIZE, start + off, n); vf_cover("increment"); }
    else { dec(start, SIZE, start + off, n); vf_cover("decrement"); }
}
VF_ENTRY(wrap_size_1__w4) { wrap<1, 10>(); }
VF_THOROUGH_ENTRY(wrap_size_1_deep) { wrap<1, 16>(); }
VF_ENTRY(wrap_size_2__w4) { wrap<2, 10>(); }
VF_THOROUGH_ENTRY(wrap_size_2_deep) { wrap<2, 16>(); }
VF_ENTRY(wrap_size_3__w4) { wrap<3, 10>(); }
VF_THOROUGH_ENTRY(wrap_size_3_deep) { wrap<3, 16>(); }
VF_ENTRY(wrap_size_5__w4) { wrap<5, 10>(); }
VF_THOROUGH_ENTRY(wrap_size_5_deep) { wrap<5, 16>(); }
VF_ENTRY(wrap_size_8__w4) { wrap<8, 10>(); }
VF_THOROUGH_ENTRY(wrap_size_8_deep) { wrap<8, 16>(); }
VF_ENTRY(wrap_size_10__w4) { wrap<10, 10>(); }
VF_THOROUGH_ENTRY(wrap_size_10_deep) { wrap<10, 16>(); }
VF_ENTRY(wrap_size_11__w4) { wrap<11, 10>(); }
VF_THOROUGH_ENTRY(wrap_size_11_deep) { wrap<11, 16>(); }
VF_ENTRY(wrap_size_100__w4) { wrap<100, 10>(); }
VF_THOROUGH_ENTRY(wrap_size_100_deep) { wrap<100, 16>(); }
// full range operands: sizes that are powers of two, and positions less than one range away
template <u64 SIZE>
void wrap_full()
{
    u64 start = vf::sym<u64>("start"), index = vf::sym<u64>("index"), n = vf::sym<u64>("n");
    vf_assume(start <= ~u64(0) - SIZE);
    vf_assume(index >= start);
    if (vf::coin("inc")) { vf_assume(n <= ~u64(0) - index); vf_assume((index - start) + n < (u64(1) << 63)); inc(start, SIZE, index, n); }
    else
    {
        vf_assume(n < (u64(1) << 62) && index < (u64(1) << 62));
        dec(start, SIZE, index, n);
    }
}
VF_ENTRY(wrap_full_1) { wrap_full<1>(); }
VF_THOROUGH_ENTRY(wrap_full_2) { wrap_full<2>(); }
VF_THOROUGH_ENTRY(wrap_full_8) { wrap_full<8>(); }
VF_ENTRY(wrap_full_big) { wrap_full<(u64(1) << 40)>(); }
// offsets at the very top of the 64-bit range
template <u64 SIZE, int BITS>
void wrap_top()
{
    u64 start = vf::sym<u64>("start"), off = vf::sym<u32>("off") & ((u64(1) << BITS) - 1), n = ~u64(0) - (vf::sym<u32>("n") & ((u64(1) << BITS) - 1));
    vf_assume(start <= ~u64(0) - SIZE - (u64(1) << (BITS + 2)));
    if (vf::coin("half")) n = n >> 1;
    auto r = circular_indexing::decrement_index_with_wraparound(IntegerRange::closed_open(start, start + SIZE), start + off, n);
    vf::check(r.integer >= start && r.integer < start + SIZE, "wrapped position is inside the range");
    vf::check(r.cycles <= static_cast<i64>(off / SIZE) && r.cycles >= -static_cast<i64>(~u64(0) / SIZE / 2) * 2 - 2, "cycle count");
    if (n > off + SIZE) vf::check(r.cycles < 0, "cycle count is negative");
    vf::check(static_cast<u64>(r.cycles) * SIZE + (r.integer - start) == off - n, "cycles and position add up to the unwrapped position");
    vf_cover("top");
}
VF_ENTRY(wrap_top_2__w4) { wrap_top<2, 5>(); }
VF_ENTRY(wrap_top_3__w4) { wrap_top<3, 5>(); }
VF_ENTRY(wrap_top_5__w4) { wrap_top<5, 5>(); }
VF_ENTRY(wrap_top_8__w4) { wrap_top<8, 5>(); }
VF_ENTRY(wrap_top_10__w4) { wrap_top<10, 5>(); }
VF_ENTRY(wrap_symbolic)
{
#ifdef VF_DEEP
    constexpr u64 M = 0xff;
#else
    constexpr u64 M = 0x0f;
#endif
    u64 size = vf::sym<u8>("size") & (M / 2), start = vf::sym<u8>("start") & M, index = vf::sym<u8>("index") & M, n = vf::sym<u8>("n") & M;
    vf_assume(size > 0);
    vf_assume(index >= start);
    if (vf::coin("inc")) inc(start, size, index, n); else dec(start, size, index, n);
}
VF_ENTRY(wrap_empty)
{
    auto r = circular_indexing::increment_index_with_wraparound(IntegerRange{}, 0, vf::sym<u64>("n"));
    auto q = circular_indexing::decrement_index_with_wraparound(IntegerRange{}, 0, vf::sym<u64>("n"));
    vf::check(r.cycles == 0 && r.integer == 0 && q.cycles == 0 && q.integer == 0, "an empty range has the single position 0");
}
// ---------------------------------------------------------------- ranges
// an implementation detail: checked as long as it is there
namespace fixed_containers::integer_range_detail { }
template <class R>
void member_or_end(const R& r, u64 a, u64 b, u64 x)
{
    using namespace fixed_containers::integer_range_detail;
    if constexpr (requires { contains_or_is_equal_to_end(r, x); }) vf::check(contains_or_is_equal_to_end(r, x) == (a <= x && x <= b), "membership or end");
}
VF_ENTRY(range)
{
    u64 a = vf::sym<u64>("a"), b = vf::sym<u64>("b"), x = vf::sym<u64>("x");
    vf_assume(a <= b);
    auto r = IntegerRange::closed_open(a, b);
    vf::check(r.start_inclusive() == a && r.end_exclusive() == b && r.distance() == b - a, "bounds");
    vf::check(r.contains(x) == (a <= x && x < b), "membership");
    member_or_end(r, a, b, x);
    u64 c = vf::sym<u64>("c"), d = vf::sym<u64>("d");
    vf_assume(c <= d);
    vf::check((r == IntegerRange::closed_open(c, d)) == (a == c && b == d), "equality");
    auto s = IntegerRange::closed_open<3, 9>();
    vf::check(s.start_inclusive() == 3 && s.end_exclusive() == 9 && s.distance() == 6 && s.contains(x) == (x >= 3 && x < 9), "static range");
    vf_cover("range");
}
VF_ENTRY(range_reversed)
{
    u64 a = vf::sym<u64>("a"), b = vf::sym<u64>("b");
    vf_assume(a > b);
    vf_expect_abort(1);
    (void)IntegerRange::closed_open(a, b);
    vf_expect_abort(0);
    vf::check(false, "a reversed range is reported");
}
#include "range_iters.h"
// ---------------------------------------------------------------- safe integers
template <class U, class S>
void safe()
{
    using int_math::safe_add;
    using int_math::safe_subtract;
    U x = vf::sym<U>("x"), y = vf::sym<U>("y");
    auto d = safe_subtract(x, y);
    vf::check(d.is_negative() == (x < y) && d.is_non_negative() == (x >= y), "sign of the difference");
    vf::check(d.unsigned_value() == static_cast<U>(x < y ? y - x : x - y), "magnitude of the difference");
    if (x >= y) vf::check(d.template cast<U>() == static_cast<U>(x - y), "unsigned difference");
    constexpr U HALF = static_cast<U>(U(1) << (sizeof(U) * 8 - 1));
    if (x >= y && static_cast<U>(x - y) < HALF) vf::check(d.template cast<S>() == static_cast<S>(x - y), "signed difference");
    if (x < y && static_cast<U>(y - x) <= HALF)
    {
        S s = d.template cast<S>();
        vf::check(s < 0 && static_cast<U>(y + static_cast<U>(s)) == x, "signed difference");
        vf_cover("negative difference");
    }
    S z = vf::sym<S>("z");
    if (z < 0)
    {
        auto r = safe_add(x, z);
        U mag = static_cast<U>(U(0) - static_cast<U>(z));
        vf::check(r.is_negative() == (x < mag), "sign of the sum");
        vf::check(r.unsigned_value() == static_cast<U>(x < mag ? mag - x : x - mag), "magnitude of the sum");
        vf_cover("add negative");
    }
    else if (static_cast<U>(x + static_cast<U>(z)) >= x)
    {
        auto r = safe_add(x, z);
        vf::check(r.is_non_negative() && r.unsigned_value() == static_cast<U>(x + static_cast<U>(z)), "sum");
        vf_cover("add positive");
    }
    using P = int_math::UnsignedIntegralAndSign<U>;
    auto p = P::create_positive(x), n = P::create_negative(x);
    vf::check(!p.is_negative() && p.unsigned_value() == x && n.is_negative() == (x != 0) && n.unsigned_value() == x, "sign and magnitude");
    // into a wider type
    if constexpr (sizeof(U) < 8) vf::check(p.template cast<i64>() == static_cast<i64>(x) && n.template cast<i64>() == -static_cast<i64>(x), "widening");
}
VF_ENTRY(safe64) { safe<u64, i64>(); }
VF_ENTRY(safe32) { safe<u32, i32>(); }
VF_ENTRY(safe16) { safe<u16, i16>(); }
VF_ENTRY(safe8) { safe<u8, i8>(); }
VF_ENTRY(safe_mixed)
{
    u64 x = vf::sym<u64>("x");
    i32 z = vf::sym<i32>("z");
    if (z < 0)
    {
        auto r = int_math::safe_add(x, z);
        u64 mag = static_cast<u64>(-static_cast<i64>(z));
        vf::check(r.is_negative() == (x < mag) && r.unsigned_value() == (x < mag ? mag - x : x - mag), "sum of mixed widths");
    }
}
VF_ENTRY(safe_cast_negative)
{
    u64 x = vf::sym<u64>("x");
    vf_assume(x > 0);
    vf_expect_abort(1);
    (void)int_math::UnsignedIntegralAndSign<u64>::create_negative(x).cast<u64>();
    vf_expect_abort(0);
    vf::check(false, "a negative value has no unsigned counterpart");
}
// ---------------------------------------------------------------- division and alignment
template <class T>
void ceil_div(T x, T d)
{
    T q = int_math::divide_integers_rounding_up(x, d);
    // the least q with q*d >= x
    if (x == 0) { vf::check(q == 0, "rounding-up division of zero"); return; }
    vf::check(q >= 1, "rounding-up division");
    vf::check(static_cast<u64>(q - 1) * d < x, "not too large");
    vf::check(static_cast<u64>(q - 1) * d >= x || x - static_cast<u64>(q - 1) * d <= d, "not too small");
    vf_cover("rounding up");
}
template <u64 D>
void ceil_const()
{
#ifdef VF_DEEP
    ceil_div<u64>(vf::sym<u64>("x"), D);
#else
    ceil_div<u64>(vf::sym<u16>("x"), D);
#endif
    ceil_div<u16>(vf::sym<u16>("y"), static_cast<u16>(D));
}
VF_ENTRY(ceil_1) { ceil_const<1>(); }
VF_ENTRY(ceil_2) { ceil_const<2>(); }
VF_ENTRY(ceil_3) { ceil_const<3>(); }
VF_ENTRY(ceil_7) { ceil_const<7>(); }
VF_ENTRY(ceil_64) { ceil_const<64>(); }
VF_ENTRY(ceil_255) { ceil_const<255>(); }
VF_ENTRY(ceil_8)
{
    u64 x = vf::sym<u8>("x"), d = vf::sym<u8>("d");
    vf_assume(d > 0);
    ceil_div<u64>(x, d);
    ceil_div<u8>(static_cast<u8>(x), static_cast<u8>(d));
}
VF_ENTRY(ceil_signed)
{
    i64 x = vf::sym<i8>("x") >> 2, d = vf::sym<i8>("d") >> 3;
    vf_assume(d > 0);
    i64 q = int_math::divide_integers_rounding_up<i64>(x, d);
    vf::check(q * d >= x && (q - 1) * d < x, "signed rounding-up division");
}
VF_ENTRY(ceil_zero)
{
    vf_expect_abort(1);
    (void)int_math::divide_integers_rounding_up<u64>(vf::sym<u64>("x"), 0);
    vf_expect_abort(0);
    vf::check(false, "division by zero is reported");
}
template <u64 A>
void align_one(u64 x)
{
    vf_assume(x <= ~u64(0) - A);
    u64 r = align_up(x, A);
    vf::check(r >= x && r - x < A && r % A == 0, "least aligned value");
}
VF_ENTRY(align)
{
    u64 x = vf::sym<u64>("x");
    switch (vf::pick(0, 5, "a"))
    {
    case 0: align_one<1>(x); break;
    case 1: align_one<2>(x); break;
    case 2: align_one<4>(x); break;
    case 3: align_one<8>(x); break;
    case 4: align_one<16>(x); break;
    case 5: align_one<64>(x); break;
    }
    vf_cover("align");
}
VF_ENTRY(align_3) { align_one<3>(vf::sym<u16>("x")); }
VF_ENTRY(align_12) { align_one<12>(vf::sym<u16>("x")); }
VF_ENTRY(align_8)
{
    u64 x = vf::sym<u8>("x") & 0x3f, a = vf::sym<u8>("a") & 0x3f;
    vf_assume(a > 0);
    u64 r = align_up(x, a);
    vf::check(r >= x && r - x < a && r % a == 0, "least aligned value");
}
