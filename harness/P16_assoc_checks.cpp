// BOUNDS: FixedMap, FixedSet, FixedUnorderedMap, FixedUnorderedSet (symbolic hash) with a recording policy, capacity 0, 1 and 3 (thorough 4), K and V in {u16, NT}; every fill level with symbolic distinct keys (also after one erasure), every inserting call form with a symbolic present or absent key, checked access with a symbolic key; ranges of up to CAP+1 entries; EnumMap::at and create_with_all_entries over every subset and duplication; default abort policy
// OUTSIDE: source_location contents; erase(end()) (undefined in std, guarded by an assertion here)
// ASSUME: the policy functions do not return (as their documentation requires)
#include "enum_types.h"
#include "assoc_misuse.h"
#include "fixed_containers/enum_map.hpp"
#ifdef VF_DEEP
constexpr size_t CAP = 4;
#else
constexpr size_t CAP = 3;
#endif
// inserting a range: everything up to the first entry that does not fit goes in
template <class Ord, class C, size_t L = 2>
void ranges(size_t lo, size_t hi)
{
    using K = typename C::key_type;
    constexpr size_t M = C::static_max_size();
    C c{};
    Model<Ord> m;
    build(c, m, lo, hi, 0);
    bool fresh = m.n == 0;
    Ctx<Ord, C> ctx{&c, &m};
    Exp::intact = &Ctx<Ord, C>::chk;
    Exp::ctx = &ctx;
    Exp::set(NONE);
    size_t n = vf::pick(0, L, "k");
    using E = std::conditional_t<IS_MAP<C>, std::pair<K, u16>, K>;
    E src[L];
    for (size_t i = 0; i < n; i++)
    {
        u16 z = symkey<K>();
        if constexpr (IS_MAP<C>) src[i] = E{mk<K>(z), 5}; else src[i] = mk<K>(z);
        if (Exp::what != NONE || m.has(z)) continue;
        if (m.n == M) Exp::set(LEN, M + 1);
        else m.add(z, IS_MAP<C> ? 5 : 0);
    }
    switch (vf::pick(0, 2, "h"))
    {
    case 0: c.insert(static_cast<const E*>(src), static_cast<const E*>(src) + n); break;
    case 1: { Stream<E> s{src, n}; c.insert(InIt<E>{&s}, InIt<E>{}); break; }
    case 2:
        if (!fresh) vf_end();
        Exp::intact = nullptr;
        { C d(static_cast<const E*>(src), static_cast<const E*>(src) + n); Exp::done(); agree(d, m); }
        return;
    }
    Exp::done();
    agree(c, m);
}
VF_ENTRY(map__w3) { misuse<Asc, OM<u16, u16, CAP>>(1); }
VF_ENTRY(map_nt__w3) { misuse<Asc, OM<NT, NT, CAP>>(0); }
VF_ENTRY(map_contig__w3) { misuse<Asc, FixedMap<u16, NT, CAP, std::less<u16>, fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::DEDICATED_COLOR, FixedIndexBasedContiguousStorage, Rec<u16>>>(1); }
VF_ENTRY(set_contig__w2) { misuse<Asc, FixedSet<NT, CAP, std::less<NT>, fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR, FixedIndexBasedContiguousStorage, Rec<NT>>>(0); }
VF_ENTRY(map_cap1) { misuse<Asc, OM<u16, NT, 1>>(1); }
VF_ENTRY(map_cap0) { misuse<Asc, OM<u16, u16, 0>>(0); }
VF_ENTRY(set__w2) { misuse<Asc, OS<u16, CAP>>(1); }
VF_ENTRY(set_nt__w2) { misuse<Asc, OS<NT, CAP>>(0); }
VF_ENTRY(set_cap1) { misuse<Asc, OS<u16, 1>>(1); }
VF_ENTRY(set_cap0) { misuse<Asc, OS<u16, 0>>(0); }
VF_ENTRY(umap__w4) { misuse<Ins, UM<u16, CAP - 1, H16, CAP - 1>>(1); }
VF_ENTRY(umap_h0__w3) { misuse<Ins, UM<NT, CAP, H0, CAP>>(0); }
VF_ENTRY(umap_cap1) { misuse<Ins, UM<NT, 1, H16, 1>>(1); }
VF_ENTRY(umap_cap0) { misuse<Ins, UM<u16, 0, H16, 0>>(0); }
VF_ENTRY(uset__w4) { misuse<Ins, US<u16, CAP - 1, H16, CAP - 1>>(1); }
VF_ENTRY(uset_h0__w2) { misuse<Ins, US<NT, CAP, H0, CAP>>(0); }
VF_ENTRY(uset_cap1) { misuse<Ins, US<u16, 1, H16, 1>>(1); }
VF_ENTRY(uset_cap0) { misuse<Ins, US<u16, 0, H16, 0>>(0); }
VF_ENTRY(map_range) { ranges<Asc, OM<u16, u16, 2>>(0, 2); }
VF_ENTRY(set_range) { ranges<Asc, OS<NT, 2>>(0, 2); }
VF_ENTRY(umap_range__w2) { ranges<Ins, UM<u16, 2, H16, 2>>(0, 2); }
VF_ENTRY(uset_range__w2) { ranges<Ins, US<NT, 2, H16, 2>>(0, 2); }
VF_ENTRY(umap_h0_range) { ranges<Ins, UM<u16, 2, H0, 3>, 3>(0, 2); }

template <class E, class V>
void enum_at()
{
    using C = EnumMap<E, V, Rec<E>>;
    C c{};
    Model<Asc> m;
    build(c, m, 0, Tab<E>::N, 1);
    Ctx<Asc, C> ctx{&c, &m};
    Exp::intact = &Ctx<Asc, C>::chk;
    Exp::ctx = &ctx;
    u16 x = symkey<E>();
    Exp::set(m.has(x) ? NONE : OOR, x, m.n);
    const C& q = c;
    if (vf::coin()) (void)c.at(mk<E>(x)); else (void)q.at(mk<E>(x));
    Exp::done();
}
VF_ENTRY(enum_at_sparse) { enum_at<ES, u16>(); }
VF_ENTRY(enum_at_rich) { enum_at<R3, NT>(); }
VF_ENTRY(enum_all_entries)
{
    using C = EnumMap<R3, u16, Rec<R3>>;
    std::pair<R3, u16> src[4];
    size_t n = vf::pick(0, 4, "n");
    Model<Asc> m;
    Exp::intact = nullptr;
    Exp::set(NONE);
    for (size_t i = 0; i < n; i++)
    {
        u16 k = symkey<R3>();
        src[i] = {mk<R3>(k), static_cast<u16>(i)};
        if (m.has(k)) Exp::set(DUP);
        else m.add(k, static_cast<u16>(i));
    }
    if (Exp::what == NONE && m.n < 3) Exp::set(MISSING);
    struct View
    {
        const std::pair<R3, u16>* p; size_t n;
        const std::pair<R3, u16>* begin() const { return p; }
        const std::pair<R3, u16>* end() const { return p + n; }
    };
    auto c = C::create_with_all_entries(View{src, n});
    Exp::done();
    agree(c, m);
}
// the default policy stops the program
VF_ENTRY(default_policy)
{
    FixedMap<u16, u16, 1> a{};
    FixedUnorderedMap<u16, u16, 1, H16> b{};
    FixedSet<u16, 1> s{};
    FixedUnorderedSet<u16, 1, H16> t{};
    EnumMap<EC, u16> e{};
    u16 x = vf::sym<u16>("x"), y = vf::sym<u16>("y");
    vf_assume(x != y);
    a[x] = 1; b[x] = 1; s.insert(x); t.insert(x);
    e[mk<EC>(0)] = 1;
    vf_expect_abort(1);
    switch (vf::pick(0, 7, "op"))
    {
    case 0: (void)a.at(y); break;
    case 1: (void)b.at(y); break;
    case 2: (void)e.at(mk<EC>(1)); break;
    case 3: a[y] = 1; break;
    case 4: b.try_emplace(y, u16{1}); break;
    case 5: s.insert(y); break;
    case 6: t.insert(y); break;
    case 7: a.insert({y, 1}); break;
    }
    vf_expect_abort(0);
    vf::check(false, "the default policy aborts");
}
