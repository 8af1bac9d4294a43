// BOUNDS: FixedString<CAP> with CAP 4 (thorough 6) holding every string of length 0..3 (thorough 0..5) over all characters (all 256 values, symbolic, embedded nulls included where the argument is not a C string); needle / comparand of every length 0..2 (thorough 0..3) with symbolic characters; every start position 0..length+1 plus npos; substr with every pos 0..length and every length 0..CAP plus the default
// OUTSIDE: longer strings; ASSUME char_traits primitives (memcmp, memchr, strlen, memcpy) behave as in the C standard (built into the executor)
#include "types.h"
#include "fixed_containers/fixed_string.hpp"
using namespace fixed_containers;
#ifdef VF_DEEP
constexpr size_t CAP = 6, LEN = 5, NEED = 3;
#else
constexpr size_t CAP = 4, LEN = 3, NEED = 2;
#endif
using S = FixedString<CAP>;
constexpr size_t npos = static_cast<size_t>(-1);

struct Str
{
    char a[8] = {};
    size_t n = 0;
};
static Str mk(size_t lo, size_t hi, bool cstr = false)
{
    Str s;
    s.n = vf::pick(lo, hi, "len");
    for (size_t i = 0; i < s.n; i++)
    {
        s.a[i] = vf::sym<char>("c");
        if (cstr) vf_assume(s.a[i] != 0);
    }
    return s;
}
// reference definitions (not std::string_view's)
static bool at(const Str& h, size_t p, const Str& x)
{
    if (p + x.n > h.n) return false;
    bool r = true;
    for (size_t i = 0; i < x.n; i++) r &= h.a[p + i] == x.a[i];
    return r;
}
static bool in(char c, const Str& x)
{
    bool r = false;
    for (size_t i = 0; i < x.n; i++) r |= c == x.a[i];
    return r;
}
static size_t r_find(const Str& h, const Str& x, size_t p)
{
    for (size_t i = p; i <= h.n; i++)
        if (at(h, i, x)) return i;
    return npos;
}
static size_t r_rfind(const Str& h, const Str& x, size_t p)
{
    for (size_t i = p > h.n ? h.n : p;; i--)
    {
        if (at(h, i, x)) return i;
        if (i == 0) return npos;
    }
}
static size_t r_first(const Str& h, const Str& x, size_t p, bool want)
{
    for (size_t i = p; i < h.n; i++)
        if (in(h.a[i], x) == want) return i;
    return npos;
}
static size_t r_last(const Str& h, const Str& x, size_t p, bool want)
{
    for (size_t i = h.n; i-- > 0;)
        if (i <= p && in(h.a[i], x) == want) return i;
    return npos;
}
static int r_cmp(const Str& x, const Str& y)
{
    for (size_t i = 0; i < x.n && i < y.n; i++)
    {
        u8 a = static_cast<u8>(x.a[i]), b = static_cast<u8>(y.a[i]);
        if (a != b) return a < b ? -1 : 1;
    }
    return x.n < y.n ? -1 : x.n > y.n ? 1 : 0;
}
static void same(const S& s, const Str& h)
{
    vf::check(s.size() == h.n, "query left the size alone");
    for (size_t i = 0; i < h.n; i++) vf::check(s.data()[i] == h.a[i], "query left the characters alone");
    vf::check(s.c_str()[h.n] == 0, "query left the terminator alone");
}
#define EQ(got, want, id) do { size_t g_ = (got), w_ = (want); vf::check(g_ == w_, id); vf::obs(g_); } while (0)

static size_t startpos(const Str& h) { size_t p = vf::pick(0, h.n + 2, "pos"); return p == h.n + 2 ? npos : p; }

#define FINDS(F, REF, DEFPOS)                                                                       \
    template <int FORM> static void q_##F()                                                         \
    {                                                                                               \
        Str h = mk(0, LEN), x = mk(FORM == 3 ? 1 : 0, FORM == 3 ? 1 : NEED, FORM == 2);             \
        size_t p = startpos(h);                                                                     \
        S s{std::string_view(h.a, h.n)};                                                            \
        const S& k = s;                                                                             \
        if constexpr (FORM == 0)                                                                    \
        {                                                                                           \
            FixedString<3> f{std::string_view(x.a, x.n)};                                           \
            EQ(k.F(f, p), REF(h, x, p), #F "(FixedString)");                                        \
            EQ(k.F(f), REF(h, x, DEFPOS), #F "(FixedString) default pos");                          \
            EQ(k.F(std::string_view(x.a, x.n), p), REF(h, x, p), #F "(string_view)");               \
            EQ(k.F(std::string_view(x.a, x.n)), REF(h, x, DEFPOS), #F "(string_view) default pos"); \
        }                                                                                           \
        if constexpr (FORM == 1) EQ(k.F(x.a, p, x.n), REF(h, x, p), #F "(ptr, pos, count)");        \
        if constexpr (FORM == 2)                                                                    \
        {                                                                                           \
            EQ(k.F(static_cast<const char*>(x.a), p), REF(h, x, p), #F "(C string)");               \
            EQ(k.F(static_cast<const char*>(x.a)), REF(h, x, DEFPOS), #F "(C string) default pos"); \
        }                                                                                           \
        if constexpr (FORM == 3)                                                                    \
        {                                                                                           \
            EQ(k.F(x.a[0], p), REF(h, x, p), #F "(char)");                                          \
            EQ(k.F(x.a[0]), REF(h, x, DEFPOS), #F "(char) default pos");                            \
        }                                                                                           \
        same(s, h);                                                                                 \
        vf_cover(#F);                                                                               \
    }                                                                                               \
    VF_ENTRY(F##_view) { q_##F<0>(); }                                                              \
    VF_ENTRY(F##_count) { q_##F<1>(); }                                                             \
    VF_ENTRY(F##_cstr) { q_##F<2>(); }                                                              \
    VF_ENTRY(F##_char) { q_##F<3>(); }
#define R_FF(h, x, p) r_first(h, x, p, true)
#define R_FN(h, x, p) r_first(h, x, p, false)
#define R_LF(h, x, p) r_last(h, x, p, true)
#define R_LN(h, x, p) r_last(h, x, p, false)
FINDS(find, r_find, 0)
FINDS(rfind, r_rfind, npos)
FINDS(find_first_of, R_FF, 0)
FINDS(find_first_not_of, R_FN, 0)
FINDS(find_last_of, R_LF, npos)
FINDS(find_last_not_of, R_LN, npos)

VF_ENTRY(compare)
{
    Str h = mk(0, LEN), x = mk(0, LEN);
    S s{std::string_view(h.a, h.n)};
    FixedString<CAP + 1> f{std::string_view(x.a, x.n)};
    std::string_view v(x.a, x.n);
    int r = r_cmp(h, x);
    int c = s.compare(v);
    vf::check((c < 0) == (r < 0) && (c > 0) == (r > 0), "compare");
    c = s.compare(f);
    vf::check((c < 0) == (r < 0) && (c > 0) == (r > 0), "compare");
    vf::check((s == f) == (r == 0) && (f == s) == (r == 0) && (s != f) == (r != 0), "== FixedString");
    vf::check((s == v) == (r == 0) && (v == s) == (r == 0), "== string_view");
    vf::check((s <=> f) == (r <=> 0), "<=> FixedString");
    vf::check((s <=> v) == (r <=> 0), "<=> string_view");
    vf::check((s < f) == (r < 0) && (s > f) == (r > 0) && (s <= f) == (r <= 0) && (s >= f) == (r >= 0), "relational");
    vf::check((f < s) == (r > 0), "relational, swapped");
    same(s, h);
    vf_cover("compare");
}
VF_ENTRY(compare_cstr)
{
    Str h = mk(0, LEN), x = mk(0, LEN, true);
    S s{std::string_view(h.a, h.n)};
    const char* p = x.a;
    int r = r_cmp(h, x);
    vf::check((s == p) == (r == 0), "== C string");
    vf::check((s <=> p) == (r <=> 0), "<=> C string");
    vf::check((s < p) == (r < 0) && (s > p) == (r > 0), "relational C string");
    same(s, h);
    vf_cover("compare_cstr");
}
VF_ENTRY(prefix_suffix)
{
    Str h = mk(0, LEN), x = mk(0, NEED + 1);
    S s{std::string_view(h.a, h.n)};
    std::string_view v(x.a, x.n);
    vf::check(s.starts_with(v) == at(h, 0, x), "starts_with");
    vf::check(s.ends_with(v) == (x.n <= h.n && at(h, h.n - x.n, x)), "ends_with");
    char c = vf::sym<char>("c");
    vf::check(s.starts_with(c) == (h.n > 0 && h.a[0] == c), "starts_with char");
    vf::check(s.ends_with(c) == (h.n > 0 && h.a[h.n - 1] == c), "ends_with char");
    same(s, h);
    vf_cover("prefix_suffix");
}
VF_ENTRY(prefix_suffix_cstr)
{
    Str h = mk(0, LEN), x = mk(0, NEED + 1, true);
    S s{std::string_view(h.a, h.n)};
    const char* p = x.a;
    vf::check(s.starts_with(p) == at(h, 0, x), "starts_with C string");
    vf::check(s.ends_with(p) == (x.n <= h.n && at(h, h.n - x.n, x)), "ends_with C string");
    same(s, h);
}
VF_ENTRY(substr)
{
    Str h = mk(0, LEN);
    S s{std::string_view(h.a, h.n)};
    size_t p = vf::pick(0, h.n, "pos"), l = vf::pick(0, CAP + 1, "len");
    bool dl = l == CAP + 1;
    std::string_view v = dl ? (p == 0 && vf::coin() ? s.substr() : s.substr(p)) : s.substr(p, l);
    size_t want = dl || l > h.n - p ? h.n - p : l;
    EQ(v.size(), want, "substr length");
    for (size_t i = 0; i < want; i++) vf::check(v[i] == h.a[p + i], "substr characters");
    same(s, h);
    vf_cover("substr");
}
VF_ENTRY(access)
{
    Str h = mk(1, LEN);
    S s{std::string_view(h.a, h.n)};
    const S& k = s;
    size_t i = vf::range(0, h.n - 1, "i");  // symbolic index
    vf::check(k[i] == h.a[i] && s[i] == h.a[i] && k.at(i) == h.a[i] && s.at(i) == h.a[i], "index");
    vf::check(k.front() == h.a[0] && k.back() == h.a[h.n - 1], "front/back");
    std::string_view v = k;
    vf::check(v.data() == k.data() && v.size() == h.n, "as string_view");
    FixedString<CAP + 2> w{v};
    vf::check(w == s, "converting copy");
    S t{s};
    vf::check(t == s, "copy");
    same(s, h);
    vf_cover("access");
}
