// BOUNDS: EnumMap, EnumSet and EnumArray over contiguous, sparse/negative/out-of-order, bool-backed and sparse rich enums of 2 to 4 constants, V in {u16, NT}; any symbolic subset of keys present (reached by up to 4 insertions in any order and 1 erasure) then every single operation with symbolic key and value, pairs of operations at 3 constants (thorough 4 constants); set algebra (all, none, complement_of, copy_of), builders, create_with_keys, create_with_all_entries, comparisons of symbolic contents; EnumArray reads/writes/fill/swap/from_range at symbolic labels
// OUTSIDE: enums with more than 4 constants except the 9-constant and 524-constant ones of P13_adapted.cpp and P13_big.cpp; constants outside magic_enum's configured range
#include "enum_types.h"
#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
using namespace fixed_containers;
using namespace assoc;
#ifdef VF_DEEP
using E2 = ES;
constexpr size_t X = 2, STEPS = 2, T0 = 0;
#else
using E2 = R3;
constexpr size_t X = 1, STEPS = 2, T0 = 1;
#endif
VF_ENTRY(map_contig_insert__w3) { run<Asc, EnumMap<EC, u16>>(0, 3, 0, INSERT_L, WRITE, 1); }
VF_ENTRY(map_contig_erase__w3) { run<Asc, EnumMap<EC, u16>>(0, 4, X, ERASE_KEY, LOOKUP, 1); }
VF_ENTRY(map_sparse_insert__w3) { run<Asc, EnumMap<ES, NT>>(0, 3, 0, INSERT_L, WRITE, 1); }
VF_ENTRY(map_sparse_erase__w3) { run<Asc, EnumMap<ES, NT>>(0, 4, X, ERASE_KEY, LOOKUP, 1); }
VF_ENTRY(map_rich__w3) { run<Asc, EnumMap<R3, NT>>(0, 3, 1, INSERT_L, LOOKUP, 1); }
VF_ENTRY(map_full) { run<Asc, EnumMap<ES, u16>>(4, 4, 0, INSERT_L, LOOKUP, 1); }
VF_ENTRY(map_bool) { run<Asc, EnumMap<RB, u16>>(0, 1, 1, INSERT_L, LOOKUP, 2); }
VF_ENTRY(map_two__w5) { run<Asc, EnumMap<E2, NT>>(T0, 1, 0, INSERT_L, LOOKUP, 2); }
VF_ENTRY(set_contig) { run<Asc, EnumSet<EC>>(0, 4, X, INSERT_L, LOOKUP, 1); }
VF_ENTRY(set_sparse) { run<Asc, EnumSet<ES>>(0, 4, X, INSERT_L, LOOKUP, 1); }
VF_ENTRY(set_rich) { run<Asc, EnumSet<R3>>(0, 3, X, INSERT_L, LOOKUP, 1); }
VF_ENTRY(set_bool) { run<Asc, EnumSet<RB>>(0, 2, 1, INSERT_L, LOOKUP, 2); }
VF_ENTRY(set_two__w4) { run<Asc, EnumSet<E2>>(T0, 2, 0, INSERT_L, LOOKUP, 2); }

// set algebra over every subset
template <class E>
void algebra()
{
    using S = EnumSet<E>;
    Model<Asc> m, comp, none, all;
    S s{};
    u16 order = static_cast<u16>(vf::sym<u8>("rot"));
    vf_assume(order < Tab<E>::N);
    bool in[8] = {};
    for (u16 i = 0; i < Tab<E>::N; i++)
    {
        in[i] = vf::coin("in");
        if (in[i]) m.add(i, 0); else comp.add(i, 0);
        all.add(i, 0);
    }
    for (u16 j = 0; j < Tab<E>::N; j++)
    {
        u16 i = static_cast<u16>((j + order) % Tab<E>::N);
        if (in[vf_concretize(i)]) s.insert(mk<E>(i));
    }
    agree(s, m);
    auto c = S::complement_of(s);
    agree(c, comp);
    agree(s, m);
    auto cc = S::complement_of(c);
    agree(cc, m);
    vf::check(cc == s, "double complement");
    auto a = S::all();
    agree(a, all);
    auto n = S::none();
    agree(n, none);
    auto d = S::copy_of(c);
    agree(d, comp);
    S lit(s.begin(), s.end());
    agree(lit, m);
    auto b1 = typename S::Builder{}.insert(s).erase(mk<E>(order)).build();
    Model<Asc> me = m;
    if (me.has(order)) me.erase(me.find(order));
    agree(b1, me);
    auto b2 = typename S::Builder{}.insert(mk<E>(order)).insert(c.begin(), c.end()).build();
    Model<Asc> ma = comp;
    if (!ma.has(order)) ma.add(order, 0);
    agree(b2, ma);
    typename S::Builder lb{};
    lb.insert(mk<E>(order)).insert({mk<E>(0), mk<E>(1)}).erase(mk<E>(1)).insert(s);
    auto b3 = lb.build();
    Model<Asc> mb;
    for (u16 i = 0; i < Tab<E>::N; i++)
        if ((i != 1 && (i == order || i == 0)) || in[i]) mb.add(i, 0);
    agree(b3, mb);
    vf_cover("algebra");
}
VF_ENTRY(algebra_contig__w2) { algebra<EC>(); }
VF_ENTRY(algebra_sparse__w2) { algebra<ES>(); }
VF_ENTRY(algebra_rich) { algebra<R3>(); }

// comparisons of two symbolic sets / maps
template <class E>
void set_compare()
{
    EnumSet<E> a{}, b{};
    Model<Asc> ma, mb;
    build(a, ma, 0, Tab<E>::N, 0);
    build(b, mb, 0, Tab<E>::N, 0);
    bool eq = ma.n == mb.n;
    int ord = 0;
    for (size_t i = 0; i < ma.n && i < mb.n; i++)
        if (ma.k[i] != mb.k[i])
        {
            eq = false;
            ord = ma.k[i] < mb.k[i] ? -1 : 1;
            break;
        }
    if (!ord && ma.n != mb.n) ord = ma.n < mb.n ? -1 : 1;
    vf::check((a == b) == eq, "set equality");
    vf::check((a != b) == !eq, "set inequality");
    if constexpr (requires { a < b; })
        vf::check((a < b) == (ord < 0) && (a > b) == (ord > 0) && (a <= b) == (ord <= 0) && (a >= b) == (ord >= 0), "set ordering");
    vf_cover("compare");
}
VF_ENTRY(set_compare_sparse__w2) { set_compare<ES>(); }
VF_ENTRY(set_compare_rich) { set_compare<R3>(); }
template <class E, class V>
void map_compare()
{
    EnumMap<E, V> a{}, b{};
    Model<Asc> ma, mb;
    build(a, ma, 0, 2, 1);
    build(b, mb, 0, 2, 0);
    bool eq = ma.n == mb.n;
    for (size_t i = 0; eq && i < ma.n; i++) eq = ma.k[i] == mb.k[i] && ma.v[i] == mb.v[i];
    vf::check((a == b) == eq && (b == a) == eq && (a != b) == !eq, "map equality");
    vf_cover("compare");
}
VF_ENTRY(map_compare_u16) { map_compare<ES, u16>(); }
VF_ENTRY(map_compare_nt) { map_compare<R3, NT>(); }

VF_ENTRY(factories)
{
    using M = EnumMap<R3, NT>;
    u16 v[3] = {vf::sym<u16>("v"), vf::sym<u16>("v"), vf::sym<u16>("v")};
    Model<Asc> m;
    EnumSet<R3> keys{};
    Model<Asc> mk_;
    build(keys, mk_, 0, 3, 0);
    switch (vf::pick(0, 6))
    {
    case 0:
    {
        auto c = M::create_with_keys(keys, NT(v[0]));
        for (size_t i = 0; i < mk_.n; i++) m.add(mk_.k[i], v[0]);
        agree(c, m);
        break;
    }
    case 1:
    {
        auto c = M::create_with_keys(keys);
        for (size_t i = 0; i < mk_.n; i++) m.add(mk_.k[i], 0);
        agree(c, m);
        break;
    }
    case 2:
    {
        u16 r = symkey<R3>();
        std::pair<R3, NT> ps[3] = {{mk<R3>(r), NT(v[0])}, {mk<R3>((r + 1) % 3), NT(v[1])}, {mk<R3>((r + 2) % 3), NT(v[2])}};
        auto c = M::create_with_all_entries(std::to_array(ps));
        for (u16 i = 0; i < 3; i++) m.add(static_cast<u16>((r + i) % 3), v[i]);
        agree(c, m);
        break;
    }
    case 3:
    {
        auto c = M::create_with_all_entries({{R3::C_FOUR(), NT(v[2])}, {R3::C_ONE(), NT(v[0])}, {R3::C_TWO(), NT(v[1])}});
        for (u16 i = 0; i < 3; i++) m.add(i, v[i]);
        agree(c, m);
        break;
    }
    case 4:
    {
        u16 a = symkey<R3>(), b = symkey<R3>();
        M c{{mk<R3>(a), NT(v[0])}, {mk<R3>(b), NT(v[1])}};
        m.add(a, v[0]);
        if (!m.has(b)) m.add(b, v[1]);
        agree(c, m);
        break;
    }
    case 5:
    {
        u16 a = symkey<R3>(), b = symkey<R3>();
        auto c = M::Builder{}.insert({mk<R3>(a), NT(v[0])}).insert({mk<R3>(b), NT(v[1])}).build();
        m.add(a, v[0]);
        if (!m.has(b)) m.add(b, v[1]);
        agree(c, m);
        break;
    }
    case 6:
    {
        EnumMap<EZero, u16> c{};
        vf::check(c.empty() && c.max_size() == 0 && c.begin() == c.end(), "no constants");
        EnumSet<EZero> s{};
        vf::check(s.empty() && s.begin() == s.end() && s == EnumSet<EZero>::all(), "no constants");
        break;
    }
    }
    vf_cover("factories");
}

// a label's value is its own
template <class E, class T>
void array_()
{
    constexpr size_t N = Tab<E>::N;
    u16 w[N];
    EnumArray<E, T> a{};
    const auto& q = a;
    vf::check(q.size() == N && q.max_size() == N && !q.empty(), "array size");
    for (u16 i = 0; i < N; i++)
    {
        vf::check(val(q[mk<E>(i)]) == 0, "array starts with default values");
        w[i] = 0;
        vf::check(val(q.labels()[i]) == i, "labels");
    }
    for (size_t s = 0; s < STEPS; s++)
    {
        u16 k = symkey<E>(), y = vf::sym<u16>("v");
        switch (vf::pick(0, 5, "op"))
        {
        case 0: a[mk<E>(k)] = T(y); for (u16 i = 0; i < N; i++) if (i == k) w[i] = y; break;
        case 1: a.at(mk<E>(k)) = T(y); for (u16 i = 0; i < N; i++) if (i == k) w[i] = y; break;
        case 2: a.fill(T(y)); for (auto& x : w) x = y; break;
        case 3:
        {
            EnumArray<E, T> b{{mk<E>(k), T(y)}};
            a.swap(b);
            for (u16 i = 0; i < N; i++)
            {
                vf::check(val(b.at(mk<E>(i))) == w[i], "swap");
                w[i] = i == k ? y : 0;
            }
            break;
        }
        case 4:
        {
            u16 k2 = symkey<E>(), y2 = vf::sym<u16>("v");
            EnumArray<E, T> b{{mk<E>(k), T(y)}, {mk<E>(k2), T(y2)}};
            for (u16 i = 0; i < N; i++) w[i] = i == k2 ? y2 : i == k ? y : 0;
            bool eq = true;
            int o = 0;
            for (u16 i = 0; i < N; i++)
            {
                u16 av = val(a[mk<E>(i)]);
                if (av != w[i]) { eq = false; if (!o) o = av < w[i] ? -1 : 1; }
            }
            vf::check((a == b) == eq, "array equality");
            vf::check((a < b) == (o < 0) && (a > b) == (o > 0), "array ordering");
            a = b;
            break;
        }
        case 5: a.front() = T(y); w[0] = y; break;
        }
        size_t i = 0;
        for (const auto& x : q) { vf::check(val(x) == w[i], "array iteration"); i++; }
        vf::check(i == N, "array iteration");
        for (auto r = q.rbegin(); r != q.rend(); ++r) vf::check(val(*r) == w[--i], "array reverse iteration");
        u16 l = symkey<E>();
        u16 want = w[0];
        for (u16 j = 1; j < N; j++) if (j == l) want = w[j];
        vf::check(val(q[mk<E>(l)]) == want && val(q.at(mk<E>(l))) == want && val(a.at(mk<E>(l))) == want, "array lookup");
        vf::check(val(q.front()) == w[0] && val(q.back()) == w[N - 1] && val(q.data()[N - 1]) == w[N - 1], "array ends");
        vf::obs(want);
    }
    vf_cover("array");
}
VF_ENTRY(array_sparse__w2) { array_<ES, u16>(); }
VF_ENTRY(array_rich__w2) { array_<R3, NT>(); }
VF_ENTRY(array_contig__w2) { array_<EC, NT>(); }
// no default constructor: strict full listing
struct ND { u16 v; ND() = delete; ND(u16 x) : v(x) {} };
VF_ENTRY(array_strict)
{
    u16 v[3] = {vf::sym<u16>("v"), vf::sym<u16>("v"), vf::sym<u16>("v")};
    EnumArray<R3, ND> a{{{R3::C_ONE(), ND(v[0])}, {R3::C_TWO(), ND(v[1])}, {R3::C_FOUR(), ND(v[2])}}};
    u16 l = symkey<R3>();
    u16 want = l == 0 ? v[0] : l == 1 ? v[1] : v[2];
    vf::check(a[mk<R3>(l)].v == want, "strict");
    vf_cover("strict");
}
