#pragma once
// entries for the iterators over integer ranges and the iterator transformer
#include "types.h"
#include "fixed_containers/circular_integer_range_iterator.hpp"
#include "fixed_containers/filtered_integer_range_iterator.hpp"
#include "fixed_containers/integer_range.hpp"
#include "fixed_containers/integer_range_iterator.hpp"
#include "fixed_containers/random_access_iterator_transformer.hpp"
using namespace fixed_containers;
// ---------------------------------------------------------------- range iterators
// the iterators b..e over n positions show value(k) at position k
template <class It, class F>
void iter_laws(It b, It e, size_t n, F value)
{
    using D = std::ptrdiff_t;
    size_t i = vf::pick(0, n, "i"), j = vf::pick(0, n, "j");
    It x = b, y = b;
    for (size_t k = 0; k < i; k++) { vf::check(*x == value(k), "forward step"); ++x; }
    for (size_t k = 0; k < j; k++) y++;
    D d = static_cast<D>(j) - static_cast<D>(i);
    vf::check((x == y) == (i == j), "equality");
    vf::check((x == e) == (i == n), "end");
    vf::check((x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j), "ordering");
    vf::check(y - x == d, "difference");
    if (i < n) vf::check(*x == value(i), "dereference");
    if (j < n && i < n) { vf::check(*(x + d) == value(j), "jump"); vf::check(x[d] == value(j), "subscript"); }
    if (i < n) { It z = x; z += d; vf::check(z == y, "+="); }
    if (j > 0) { It z = y; --z; vf::check(*z == value(j - 1), "backward step"); ++z; vf::check(z == y, "step back and forth"); }
    if (j > 0 && d > 0) { It z = y; z -= d; vf::check(z == x, "-="); }
    vf_cover("range iterator laws");
}
VF_ENTRY(range_iter_fwd)
{
    size_t n = vf::pick(0, 4, "n");
    u64 a = vf::sym<u64>("a");
    vf_assume(a <= ~u64(0) - n);
    auto r = IntegerRange::closed_open(a, a + n);
    using It = IntegerRangeIterator<>;
    iter_laws(It{r, a}, It{r, a + n}, n, [=](size_t k) { return a + k; });
}
VF_ENTRY(range_iter_rev)
{
    size_t n = vf::pick(0, 4, "n");
    u64 a = vf::sym<u64>("a");
    vf_assume(a <= ~u64(0) - n);
    auto r = IntegerRange::closed_open(a, a + n);
    using It = IntegerRangeIterator<IteratorDirection::REVERSE>;
    if (n == 0) return;
    iter_laws(It{r, a + n}, It{r, a}, n, [=](size_t k) { return a + n - 1 - k; });
}
VF_ENTRY(circ_iter_fwd)
{
    size_t n = vf::pick(1, 3, "n"), off = vf::pick(0, 2, "off"), len = vf::pick(0, 4, "len");
    if (off >= n) return;
    u64 a = vf::sym<u64>("a");
    vf_assume(a <= ~u64(0) - 32);
    auto r = IntegerRange::closed_open(a, a + n);
    using It = CircularIntegerRangeIterator<>;
    iter_laws(It{r, StartingIntegerAndDistance{.start = a + off, .distance = 0}}, It{r, StartingIntegerAndDistance{.start = a + off, .distance = len}}, len,
              [=](size_t k) { return a + (off + k) % n; });
}
VF_ENTRY(circ_iter_rev)
{
    size_t n = vf::pick(1, 3, "n"), off = vf::pick(0, 2, "off"), len = vf::pick(0, 4, "len");
    if (off >= n) return;
    u64 a = vf::sym<u64>("a");
    vf_assume(a <= ~u64(0) - 32);
    auto r = IntegerRange::closed_open(a, a + n);
    using It = CircularIntegerRangeIterator<IteratorDirection::REVERSE>;
    iter_laws(It{r, StartingIntegerAndDistance{.start = a + off, .distance = len}}, It{r, StartingIntegerAndDistance{.start = a + off, .distance = 0}}, len,
              [=](size_t k) { return a + (off + len - 1 - k) % n; });
}
struct Mask
{
    u64 base = 0;
    u8 m = 0;
    bool operator()(size_t i) const { return ((m >> (i - base)) & 1) != 0; }
    bool operator==(const Mask&) const = default;
};
template <IteratorDirection DIR>
void filtered()
{
    size_t n = vf::pick(0, 4, "n");
    u64 a = vf::sym<u64>("a");
    vf_assume(a >= 1 && a <= ~u64(0) - 8);
    Mask p{a, vf::sym<u8>("mask")};
    auto r = IntegerRange::closed_open(a, a + n);
    u64 want[4];
    size_t m = 0;
    for (size_t k = 0; k < n; k++)
        if (p(a + k)) want[m++] = a + k;
    using It = FilteredIntegerRangeIterator<Mask, DIR>;
    constexpr bool FWD = DIR == IteratorDirection::FORWARD;
    It b{r, FWD ? a : a + n, p}, e{r, FWD ? a + n : a, p};
    size_t k = 0;
    It it = b;
    for (; k <= m && it != e; ++it, ++k)
    {
        vf::check(k < m, "visits only selected integers");
        if (k >= m) return;
        vf::check(*it == want[FWD ? k : m - 1 - k], "visits the selected integers in order");
    }
    vf::check(k == m, "visits every selected integer");
    for (; k > 0; k--) { --it; vf::check(*it == want[FWD ? k - 1 : m - k], "backwards too"); }
    vf::check(it == b, "back to the beginning");
    vf_cover("filtered");
}
VF_ENTRY(filtered_fwd) { filtered<IteratorDirection::FORWARD>(); }
VF_ENTRY(filtered_rev) { filtered<IteratorDirection::REVERSE>(); }
// the transformer applies the function to the element of the underlying position
struct Twice { u32 operator()(const u16& x) const { return 2u * x + 1; } };
VF_ENTRY(transformer)
{
    u16 a[4];
    for (auto& x : a) x = vf::sym<u16>("x");
    using It = RandomAccessIteratorTransformer<const u16*, u16*, Twice, Twice, IteratorConstness::CONSTANT_ITERATOR>;
    using MIt = RandomAccessIteratorTransformer<const u16*, u16*, Twice, Twice, IteratorConstness::MUTABLE_ITERATOR>;
    iter_laws(It{a, Twice{}}, It{a + 4, Twice{}}, 4, [&](size_t k) { return 2u * a[k] + 1; });
    iter_laws(MIt{a, Twice{}}, MIt{a + 4, Twice{}}, 4, [&](size_t k) { return 2u * a[k] + 1; });
    It c = MIt{a + 2, Twice{}};
    vf::check(c - It{a, Twice{}} == 2 && *c == 2u * a[2] + 1, "conversion keeps the position");
    vf::check(2 + It{a, Twice{}} == c && c - 2 == (It{a, Twice{}}), "n + it");
}
