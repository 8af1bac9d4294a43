// Misuse reporting of maps and sets: a policy that records, and every inserting or checked call form.
#pragma once
#include "assoc_ops.h"
#include "hash_types.h"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
using namespace fixed_containers;
using namespace assoc;
using Loc = std_transition::source_location;
enum What { NONE, OOR, LEN, DUP, MISSING };
struct Exp
{
    static inline int what;
    static inline u64 a, b;
    static inline void (*intact)(void*);
    static inline void* ctx;
    static void set(int w, u64 x = 0, u64 y = 0) { what = w; a = x; b = y; }
    [[noreturn]] static void report(int w, u64 x, u64 y)
    {
        vf::check(what != NONE, "reported an operation that is within limits");
        vf::check(what == NONE || what == w, "reported with the right category");
        if (what == w)
        {
            if (w == OOR) { vf::check(a == x, "reported key"); vf::check(b == y, "reported size"); }
            if (w == LEN) vf::check(a == x, "reported requested size");
        }
        if (intact) intact(ctx);
        vf_cover("reported");
        vf_end();
    }
    static void done() { vf::check(what == NONE, "misuse was not reported"); what = NONE; vf_cover("not reported"); }
};
template <class K>
struct Rec
{
    [[noreturn]] static void out_of_range(const K& k, std::size_t n, const Loc&) { Exp::report(OOR, val(k), n); }
    [[noreturn]] static void length_error(std::size_t n, const Loc&) { Exp::report(LEN, n, 0); }
    [[noreturn]] static void duplicate_enum_entries(const Loc&) { Exp::report(DUP, 0, 0); }
    [[noreturn]] static void missing_enum_entries(const Loc&) { Exp::report(MISSING, 0, 0); }
};
template <class Ord, class C> struct Ctx { C* c; Model<Ord>* m; static void chk(void* p) { auto& x = *static_cast<Ctx*>(p); agree(*x.c, *x.m); } };
template <class Ord, class C>
void misuse(size_t extra)
{
    using K = typename C::key_type;
    constexpr size_t M = C::static_max_size();
    C c{};
    Model<Ord> m;
    build(c, m, 0, M, extra);
    Ctx<Ord, C> ctx{&c, &m};
    Exp::intact = &Ctx<Ord, C>::chk;
    Exp::ctx = &ctx;
    Exp::set(NONE);
    u16 x = symkey<K>(), y = vf::sym<u16>("v");
    bool present = m.has(x);
    size_t op = vf::pick(0, 15, "op");
    if (op < 14) Exp::set(!present && m.n == M ? LEN : NONE, M + 1);
    auto hint = [&] { return cnth(c, vf::pick(0, m.n, "hint")); };
    if constexpr (IS_MAP<C>)
    {
        using V = typename C::mapped_type;
        using P = typename C::value_type;
        const K k(mk<K>(x));
        switch (op)
        {
        case 0: { const P pr{mk<K>(x), V(y)}; c.insert(pr); break; }
        case 1: c.insert(P{mk<K>(x), V(y)}); break;
        case 2: c.insert_or_assign(k, V(y)); break;
        case 3: c.insert_or_assign(mk<K>(x), V(y)); break;
        case 4: c.insert_or_assign(hint(), k, V(y)); break;
        case 5: c.insert_or_assign(hint(), mk<K>(x), V(y)); break;
        case 6: c.try_emplace(k, y); break;
        case 7: c.try_emplace(mk<K>(x), y); break;
        case 8: c.try_emplace(hint(), k, y); break;
        case 9: c.try_emplace(hint(), mk<K>(x), y); break;
        case 10: c.emplace(mk<K>(x), y); break;
        case 11: c.emplace_hint(hint(), mk<K>(x), y); break;
        case 12: (void)c[k]; break;
        case 13: (void)c[mk<K>(x)]; break;
        case 14: Exp::set(present ? NONE : OOR, x, m.n); (void)c.at(k); break;
        case 15: { const C& q = c; Exp::set(present ? NONE : OOR, x, m.n); (void)q.at(k); break; }
        }
    }
    else
        switch (op)
        {
        case 0: { const K k(mk<K>(x)); c.insert(k); break; }
        case 1: c.insert(mk<K>(x)); break;
        case 2: { const K k(mk<K>(x)); c.insert(hint(), k); break; }
        case 3: c.insert(hint(), mk<K>(x)); break;
        case 4: c.emplace(x); break;
        case 5: c.emplace_hint(hint(), x); break;
        default:
            if constexpr (requires(const K& k) { c.try_emplace(k); })
            {
                const K k(mk<K>(x));
                switch (op)
                {
                case 6: c.try_emplace(k); break;
                case 7: c.try_emplace(mk<K>(x)); break;
                case 8: c.try_emplace(hint(), k); break;
                case 9: c.try_emplace(hint(), mk<K>(x)); break;
                default: vf_end();
                }
            }
            else
                vf_end();
        }
    Exp::done();
}
template <class K, size_t C, class H, size_t B> using UM = FixedUnorderedMap<K, u16, C, H, std::equal_to<K>, B, Rec<K>>;
template <class K, size_t C, class H, size_t B> using US = FixedUnorderedSet<K, C, H, std::equal_to<K>, B, Rec<K>>;
template <class K, class V, size_t C> using OM = FixedMap<K, V, C, std::less<K>, fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR, FixedIndexBasedPoolStorage, Rec<K>>;
template <class K, size_t C> using OS = FixedSet<K, C, std::less<K>, fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR, FixedIndexBasedPoolStorage, Rec<K>>;
