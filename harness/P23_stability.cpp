// COVER: own
// BOUNDS: FixedList (u16, NT) of up to 3 elements in any slot arrangement reachable with 2 extra elements; FixedMap/FixedSet with symbolic keys inserted in any order (up to 4, 1 erased again; thorough 5), compact and dedicated-colour nodes, two-operation histories from up to 3 entries; FixedUnorderedMap/FixedUnorderedSet with symbolic hashes and up to 3 entries; EnumMap/EnumSet over 3 and 4 constants; references, iterators and const iterators to every element taken before one (or two) symbolic operations from the whole mutating alphabet and examined after each; vectors and strings of up to 3 elements: references and iterators before the point of any modification
// OUTSIDE: whole-container assignment, swap and move (P19), the contiguous index storage, whose elements move by design
#include "enum_types.h"
#include "hash_types.h"
#include "seq_ops.h"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"
using namespace fixed_containers;
using namespace assoc;
inline u16 val(char x) { return static_cast<u16>(static_cast<unsigned char>(x)); }
template <class C>
const void* addr1(const typename C::iterator& it)
{
    if constexpr (IS_MAP<C>) return &it->first; else if constexpr (requires { &*it; }) return &*it; else return nullptr;
}
template <class C>
const void* addr2(const typename C::iterator& it)
{
    if constexpr (IS_MAP<C>) return &it->second; else return nullptr;
}
template <class Ord, class C>
void stable(size_t lo, size_t hi, size_t extra, size_t oplo, size_t ophi, size_t ops, C c = C{})
{
    constexpr size_t MX = 6;
    // addresses of set elements: enum sets yield values, not references
    constexpr bool ADDR = std::is_reference_v<typename C::reference> || IS_MAP<C>;
    Model<Ord> m;
    build(c, m, lo, hi, extra);
    const C& q = c;
    size_t n0 = m.n;
    u16 key[MX];
    bool live[MX];
    typename C::iterator it[MX];
    typename C::const_iterator cit[MX];
    const void* a1[MX];
    const void* a2[MX];
    for (size_t i = 0; i < n0; i++)
    {
        key[i] = m.k[i];
        live[i] = true;
        it[i] = nth(c, i);
        cit[i] = cnth(q, i);
        if constexpr (ADDR) { a1[i] = addr1<C>(it[i]); a2[i] = addr2<C>(it[i]); }
    }
    auto fin = c.end();
    for (size_t step = 0; step < ops; step++)
    {
        apply(c, m, vf::pick(oplo, ophi, "op"));
        for (size_t i = 0; i < n0; i++)
        {
            if (!live[i]) continue;
            size_t p = m.find(key[i]);
            live[i] = p != m.n;
            if (!live[i]) continue;
            vf_cover("survivor");
            auto f = nth(c, p);
            if constexpr (ADDR)
            {
                vf::check(addr1<C>(f) == a1[i] && addr2<C>(f) == a2[i], "a surviving element keeps its address");
                vf::check(addr1<C>(it[i]) == a1[i] && addr2<C>(it[i]) == a2[i], "a held iterator keeps denoting the same object");
                vf::check(val(*static_cast<const typename C::key_type*>(a1[i])) == key[i], "a held key reference keeps its value");
                if constexpr (IS_MAP<C>) vf::check(val(*static_cast<const typename C::mapped_type*>(a2[i])) == m.v[p], "a held value reference shows the element's value");
            }
            at_pos(c, m, it[i], p, "held iterator");
            vf::check(keyOf<C>(*cit[i]) == key[i] && cit[i] == cnth(q, p), "held const iterator");
            auto nx = it[i];
            ++nx;
            at_pos(c, m, nx, p + 1, "successor of a held iterator");
            if constexpr (Ord::ORDERED)
            {
                if (p > 0) { auto pv = it[i]; --pv; at_pos(c, m, pv, p - 1, "predecessor of a held iterator"); }
                else vf::check(it[i] == c.begin(), "held iterator to the first entry");
            }
        }
        if constexpr (Ord::ORDERED) vf::check(fin == c.end(), "held end iterator");
    }
}
#define BOTH(NAME, ORD, NI, NE, ...)                                                              \
    VF_ENTRY(NAME##_insert__w3) { stable<ORD, __VA_ARGS__>(1, NI, 1, INSERT_L, WRITE, 1); }       \
    VF_ENTRY(NAME##_erase__w3) { stable<ORD, __VA_ARGS__>(1, NE, 1, ERASE_KEY, ERASE_IF, 1); }
#ifdef VF_DEEP
constexpr size_t D = 1;
#else
constexpr size_t D = 0;
#endif
template <class K, class V, size_t N>
using Ded = FixedMap<K, V, N, std::less<K>, fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::DEDICATED_COLOR, FixedIndexBasedPoolStorage>;
BOTH(map, Asc, 2 + D, 4 + D, FixedMap<u16, u16, 5 + D>)
BOTH(map_nt, Asc, 2, 3, FixedMap<NT, NT, 4>)
BOTH(map_ded, Asc, 2 + D, 4, Ded<u16, u16, 5>)
BOTH(set, Asc, 3, 4 + D, FixedSet<u16, 5 + D>)
BOTH(set_nt, Asc, 2, 3, FixedSet<NT, 4>)
VF_ENTRY(map_erase_big__w9) { stable<Asc, FixedMap<u16, u16, 6>>(5, 5, 0, ERASE_POS, ERASE_POS, 1); }
VF_ENTRY(map_two__w5) { stable<Asc, FixedMap<u16, u16, 4>>(2, 2, 0, ERASE_KEY, ERASE_IF, 2); }
VF_ENTRY(map_erase_insert__w5)
{
    // a slot is released and handed out again
    using M = FixedMap<u16, u16, 3>;
    stable<Asc, M>(3, 3, 1, INSERT_L, INSERT_L, 1);
}
VF_ENTRY(set_two__w5) { stable<Asc, FixedSet<u16, 4>>(2, 3, 0, ERASE_KEY, ERASE_IF, 2); }
BOTH(umap, Ins, 2, 3, FixedUnorderedMap<u16, NT, 4, HF>)
BOTH(umap_tight, Ins, 2, 3, FixedUnorderedMap<u16, u16, 3, H16, std::equal_to<u16>, 3>)
BOTH(uset, Ins, 2, 3, FixedUnorderedSet<u16, 4, HF>)
BOTH(uset_nt, Ins, 2, 3, FixedUnorderedSet<NT, 4, H0>)
VF_ENTRY(umap_two__w5) { stable<Ins, FixedUnorderedMap<u16, u16, 4, HF>>(2, 3, 0, ERASE_KEY, ERASE_IF, 2); }
VF_ENTRY(umap_reuse__w5) { stable<Ins, FixedUnorderedMap<u16, u16, 3, HF>>(2, 3, 1, INSERT_L, INSERT_R, 1); }
BOTH(emap, Asc, 3, 4, EnumMap<ES, NT>)
BOTH(emap_rich, Asc, 3, 3, EnumMap<R3, u16>)
BOTH(eset, Asc, 3, 4, EnumSet<ES>)
// ---------------------------------------------------------------- list
// which of the n0 original positions survive, tracked by tagging: an element is recognised by its address
template <class T, size_t CAP>
void list(unsigned oplo, unsigned ophi)
{
    using namespace seq;
    using C = FixedList<T, CAP>;
    C c{};
    Seq m;
    build<seq::Kind::LIST>(c, m, 3, 2);
    size_t n0 = m.n;
    const T* a[4];
    u16 v[4];
    typename C::iterator it[4];
    typename C::const_iterator cit[4];
    size_t k = 0;
    for (auto i = c.begin(); i != c.end(); ++i, ++k) { it[k] = i; cit[k] = i; a[k] = &*i; v[k] = val(*i); }
    auto fin = c.end();
    size_t room = CAP - n0;
    // the element at old position i is at new position map[i], or gone
    size_t to[4];
    constexpr size_t GONE = 99;
    auto gone_range = [&](size_t p, size_t q) { for (size_t i = 0; i < n0; i++) to[i] = i < p ? i : i < q ? GONE : i - (q - p); };
    auto inserted = [&](size_t p, size_t cnt) { for (size_t i = 0; i < n0; i++) to[i] = i < p ? i : i + cnt; };
    auto nth = [&](size_t p) { auto i = c.begin(); while (p--) ++i; return i; };
    auto filter = [&](auto pred)
    {
        size_t kept = 0;
        for (size_t i = 0; i < n0; i++) to[i] = pred(v[i]) ? GONE : kept++;
    };
    size_t size1 = n0;
    switch (vf::pick(oplo, ophi, "op"))
    {
    case 0: { if (!room) vf_end(); size_t p = vf::pick(0, n0, "p"); auto r = c.insert(nth(p), T(vf::sym<u16>("x"))); vf::check(r == nth(p), "insert result"); inserted(p, 1); size1++; break; }
    case 1: { if (!room) vf_end(); size_t p = vf::pick(0, n0, "p"); c.emplace(nth(p), vf::sym<u16>("x")); inserted(p, 1); size1++; break; }
    case 2:
    {
        size_t p = vf::pick(0, n0, "p"), cnt = vf::pick(0, room < 2 ? room : 2, "cnt");
        T src[2] = {T(vf::sym<u16>("x")), T(vf::sym<u16>("x"))};
        auto r = c.insert(nth(p), src, src + cnt);
        vf::check(r == nth(p), "insert result");
        inserted(p, cnt);
        size1 += cnt;
        break;
    }
    case 3: if (!room) vf_end(); c.push_front(T(vf::sym<u16>("x"))); inserted(0, 1); size1++; break;
    case 4: if (!room) vf_end(); c.push_back(T(vf::sym<u16>("x"))); inserted(n0, 1); size1++; break;
    case 5: if (!room) vf_end(); c.emplace_front(vf::sym<u16>("x")); inserted(0, 1); size1++; break;
    case 6: if (!n0) vf_end(); c.pop_front(); gone_range(0, 1); size1--; break;
    case 7: if (!n0) vf_end(); c.pop_back(); gone_range(n0 - 1, n0); size1--; break;
    case 8: { if (!n0) vf_end(); size_t p = vf::pick(0, n0 - 1, "p"); auto r = c.erase(it[p]); gone_range(p, p + 1); size1--; vf::check(r == (p + 1 < n0 ? it[p + 1] : fin), "erase returns the held successor"); break; }
    case 9: { size_t p = vf::pick(0, n0, "p"), q = vf::pick(p, n0, "q"); auto r = c.erase(p < n0 ? it[p] : fin, q < n0 ? it[q] : fin); gone_range(p, q); size1 -= q - p; vf::check(r == (q < n0 ? it[q] : fin), "erase returns the held successor"); break; }
    case 10: { filter([](u16 x) { return (x & 1) != 0; }); c.remove_if([](const T& t) { return (val(t) & 1) != 0; }); for (size_t i = 0; i < n0; i++) size1 -= to[i] == GONE; break; }
    case 11: { u16 x = vf::sym<u16>("x"); T t(x); filter([=](u16 y) { return x == y; }); c.remove(t); for (size_t i = 0; i < n0; i++) size1 -= to[i] == GONE; break; }
    case 12: { size_t s = vf::pick(0, CAP, "s"); c.resize(s); gone_range(s < n0 ? s : n0, n0); size1 = s; break; }
    }
    vf::check(c.size() == size1 && fin == c.end(), "size");
    for (size_t i = 0; i < n0; i++)
    {
        if (to[i] == GONE) continue;
        vf_cover("list survivor");
        auto f = nth(to[i]);
        vf::check(&*f == a[i], "a surviving element keeps its address");
        vf::check(val(*a[i]) == v[i], "a held reference keeps its value");
        vf::check(it[i] == f && cit[i] == typename C::const_iterator(f) && &*it[i] == a[i] && &*cit[i] == a[i], "held iterator");
        auto nx = it[i];
        ++nx;
        vf::check(nx == (to[i] + 1 < size1 ? nth(to[i] + 1) : c.end()), "successor of a held iterator");
        if (to[i] > 0) { auto pv = it[i]; --pv; vf::check(pv == nth(to[i] - 1), "predecessor of a held iterator"); }
    }
}
VF_ENTRY(list_insert__w2) { list<u16, 5>(0, 5); }
VF_ENTRY(list_erase__w2) { list<u16, 5>(6, 12); }
VF_ENTRY(list_nt_insert__w2) { list<NT, 4>(0, 5); }
VF_ENTRY(list_nt_erase__w2) { list<NT, 4>(6, 12); }
// ---------------------------------------------------------------- vectors and strings
// everything before the first modified position stays where and what it was
template <class C>
void before(C& c, const u16* v, size_t n0)
{
    using T = typename C::value_type;
    constexpr size_t CAP = C::static_max_size();
    const T* a[4];
    typename C::iterator it[4];
    for (size_t i = 0; i < n0; i++) { a[i] = &c[i]; it[i] = c.begin() + static_cast<std::ptrdiff_t>(i); }
    size_t p = vf::pick(0, n0, "p");  // the point of modification
    bool room = n0 < CAP;
    auto x = [] { return T(vf::sym<u16>("x")); };
    auto pos = [&] { return c.cbegin() + static_cast<std::ptrdiff_t>(p); };
    switch (vf::pick(0, 8, "op"))
    {
    case 0: if (!room) vf_end(); { auto r = c.insert(pos(), x()); vf::check(r == c.begin() + static_cast<std::ptrdiff_t>(p), "insert result"); } break;
    case 1: if (n0 + 2 > CAP) vf_end(); { T s[2] = {x(), x()}; auto r = c.insert(pos(), s, s + 2); vf::check(r == c.begin() + static_cast<std::ptrdiff_t>(p), "insert result"); } break;
    case 2: if (p == n0) vf_end(); { auto r = c.erase(pos()); vf::check(r == c.begin() + static_cast<std::ptrdiff_t>(p), "erase result"); } break;
    case 3: { size_t q = vf::pick(p, n0, "q"); auto r = c.erase(pos(), c.cbegin() + static_cast<std::ptrdiff_t>(q)); vf::check(r == c.begin() + static_cast<std::ptrdiff_t>(p), "erase result"); } break;
    case 4: if (!room || p != n0) vf_end(); c.push_back(x()); break;
    case 5: if (!n0 || p != n0 - 1) vf_end(); c.pop_back(); break;
    case 6: c.resize(p); break;
    case 7: if (p != n0) vf_end(); c.resize(CAP); break;
    case 8: if constexpr (requires { c.emplace(pos(), u16{}); }) { if (!room) vf_end(); c.emplace(pos(), vf::sym<u16>("x")); } else vf_end(); break;
    }
    for (size_t i = 0; i < p; i++)
    {
        vf_cover("vector survivor");
        vf::check(&c[i] == a[i] && it[i] == c.begin() + static_cast<std::ptrdiff_t>(i) && &*it[i] == a[i], "elements before the modification keep their address");
        vf::check(val(*a[i]) == v[i], "elements before the modification keep their value");
    }
}
template <class T>
void vec()
{
    FixedVector<T, 5> c{};
    u16 v[3];
    size_t n = vf::pick(0, 3, "n");
    for (size_t i = 0; i < n; i++) { v[i] = vf::sym<u16>("e"); c.push_back(T(v[i])); }
    before(c, v, n);
}
VF_ENTRY(vector) { vec<u16>(); }
VF_ENTRY(vector_nt) { vec<NT>(); }
VF_ENTRY(string)
{
    FixedString<5> c{};
    u16 v[3];
    size_t n = vf::pick(0, 3, "n");
    for (size_t i = 0; i < n; i++) { v[i] = vf::sym<u8>("e"); c.push_back(static_cast<char>(v[i])); }
    before(c, v, n);
}
