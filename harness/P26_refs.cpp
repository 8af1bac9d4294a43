// COVER: own
// BOUNDS: OptionalReference over u16, const u16 and NT: every history of 3 operations (thorough 5) of the whole alphabet over three referents with symbolic values, starting from every binding; comparisons of every pair of bindings with each other, with nullopt and with values, including mixed value types and weak/partial orderings; PairView over every constness of its parts and histories of 3 (thorough 4) rebinds, writes and conversions; values that are not equal to themselves; ComparisonChain over 4 symbolic pairs of u16 (and NT, signed and mixed widths); in_out and out over u16 and a type that overloads operator&
// OUTSIDE: referents destroyed while referenced (a caller error)
#include "types.h"
#include <memory>
#include <optional>
#include "fixed_containers/comparison_chain.hpp"
#include "fixed_containers/in_out.hpp"
#include "fixed_containers/optional_reference.hpp"
#include "fixed_containers/out.hpp"
#include "fixed_containers/pair.hpp"
#include "fixed_containers/pair_view.hpp"
using namespace fixed_containers;
#ifdef VF_DEEP
constexpr size_t OPS = 5, POPS = 4;
#else
constexpr size_t OPS = 3, POPS = 3;
#endif
inline int raw(const u16& x) { return x; }
inline int raw(const NT& x) { return x.v; }

// ------------------------------------------------------------ OptionalReference
// model: index of the referent, N for empty
template <class T, class U, size_t N>
void same(OptionalReference<T>& o, size_t b, U (&r)[N], const u16 (&mv)[N])
{
    const OptionalReference<T>& c = o;
    for (size_t i = 0; i < N; i++) vf::check(raw(r[i]) == mv[i], "referents hold exactly what was written to them");
    vf::check(o.has_value() == (b != N) && static_cast<bool>(c) == (b != N), "has_value");
    vf::check((o == std::nullopt) == (b == N) && (std::nullopt != o) == (b != N), "comparison with nullopt");
    if (b == N) return;
    const U* p = &r[b];
    vf::check(&*o == p && &*c == p && o.operator->() == p && c.operator->() == p, "denotes the bound object");
    vf::check(&o.value() == p && &c.value() == p, "value() is the bound object");
}
template <class T>
void opt_history(size_t ops)
{
    using U = std::remove_const_t<T>;
    constexpr size_t N = 3;
    U r[N] = {U(vf::sym<u16>()), U(vf::sym<u16>()), U(vf::sym<u16>())};
    u16 mv[N] = {static_cast<u16>(raw(r[0])), static_cast<u16>(raw(r[1])), static_cast<u16>(raw(r[2]))};
    U fallback{static_cast<u16>(7)};
    using O = OptionalReference<T>;
    size_t b = vf::pick(0, N, "start");
    O o = b == N ? O{} : O{static_cast<T&>(r[b])};
    same(o, b, r, mv);
    for (size_t step = 0; step < ops; step++)
    {
        size_t k = vf::pick(0, N - 1, "referent");
        switch (vf::pick(0, 10, "op"))
        {
        case 0: o.reset(); b = N; vf_cover("reset"); break;
        case 1: o = std::nullopt; b = N; break;
        case 2: { auto& e = o.emplace(r[k]); vf::check(&e == &r[k], "emplace returns the new referent"); b = k; vf_cover("emplace"); break; }
        case 3: o = O{static_cast<T&>(r[k])}; b = k; vf_cover("rebind"); break;
        case 4: { O p{static_cast<T*>(&r[k])}; o = p; b = k; same(p, k, r, mv); break; }
        case 5: { O p{static_cast<T*>(nullptr)}; O q{std::nullopt}; vf::check(!p.has_value() && !q.has_value(), "a null pointer is empty"); o = std::move(p); b = N; break; }
        case 6:
            if (b == N) break;
            if constexpr (!std::is_const_v<T>)
            {
                u16 x = vf::sym<u16>();
                switch (vf::pick(0, 2, "write"))
                {
                case 0: *o = U(x); break;
                case 1: o.value() = U(x); break;
                case 2: *o.operator->() = U(x); break;
                }
                mv[b] = x;
                vf_cover("write through");
            }
            break;
        case 7: { u16 x = vf::sym<u16>(); r[k] = U(x); mv[k] = x; break; }
        case 8:
        {
            T& d = o.value_or(static_cast<T&>(fallback));
            vf::check(&d == (b == N ? &fallback : &r[b]), "value_or");
            T& e = static_cast<const O&>(o).value_or(static_cast<T&>(r[k]));
            vf::check(&e == (b == N ? &r[k] : &r[b]), "value_or of a const optional reference");
            break;
        }
        case 9: { O p(o); same(p, b, r, mv); p.reset(); same(o, b, r, mv); break; }
        case 10:
        {
            O p = k == 0 ? O{} : O{static_cast<T&>(r[k])};
            std::swap(o, p);
            same(p, b, r, mv);
            b = k == 0 ? N : k;
            break;
        }
        }
        same(o, b, r, mv);
    }
    vf::check(raw(fallback) == 7, "the fallback is not modified");
    vf_cover("history");
}
VF_ENTRY(opt_u16) { opt_history<u16>(OPS); }
VF_ENTRY(opt_const) { opt_history<const u16>(OPS); }
VF_ENTRY(opt_nt) { opt_history<NT>(OPS); }

template <class T>
void opt_empty()
{
    OptionalReference<T> o;
    std::remove_const_t<T> x{u16(1)};
    if (vf::coin()) { o = OptionalReference<T>{static_cast<T&>(x)}; if (vf::coin()) o.reset(); else o = std::nullopt; }
    const auto& c = o;
    vf_expect_abort(1);
    const void* p = nullptr;
    switch (vf::pick(0, 5, "access"))
    {
    case 0: p = &o.value(); break;
    case 1: p = &c.value(); break;
    case 2: p = &*o; break;
    case 3: p = &*c; break;
    case 4: p = o.operator->(); break;
    case 5: p = c.operator->(); break;
    }
    vf_expect_abort(0);
    vf::obs(p != nullptr);
    vf::check(false, "access to an empty optional reference is reported");
}
VF_ENTRY(opt_empty_u16) { opt_empty<u16>(); }
VF_ENTRY(opt_empty_const_nt) { opt_empty<const NT>(); }

// an ordering that is only partial: bit 15 set = unordered with everything, bit 0 ignored
struct Partial
{
    u16 v;
    friend std::partial_ordering operator<=>(const Partial& a, const Partial& b)
    {
        if ((a.v | b.v) & 0x8000) return std::partial_ordering::unordered;
        return (a.v >> 1) <=> (b.v >> 1);
    }
    friend bool operator==(const Partial& a, const Partial& b) { return (a <=> b) == 0; }
};
struct Weak
{
    u16 v;
    friend std::weak_ordering operator<=>(const Weak& a, const Weak& b) { return (a.v >> 1) <=> (b.v >> 1); }
    friend bool operator==(const Weak& a, const Weak& b) { return (a <=> b) == 0; }
};
template <class A, class B>
void six(const A& a, const B& b, std::partial_ordering e)
{
    vf::check((a == b) == (e == 0), "==");
    vf::check((a != b) == (e != 0), "!=");
    vf::check((a < b) == (e < 0), "<");
    vf::check((a > b) == (e > 0), ">");
    vf::check((a <= b) == (e <= 0), "<=");
    vf::check((a >= b) == (e >= 0), ">=");
    std::partial_ordering g = a <=> b;
    vf::check(g == e, "<=>");
}
template <class T, class U, class ST, class SU>
void opt_compare()
{
    T x{vf::sym<ST>()};
    U y{vf::sym<SU>()};
    bool ha = vf::coin(), hb = vf::coin();
    using A = OptionalReference<T>;
    using B = OptionalReference<const U>;
    A a = ha ? A{x} : A{};
    B b = hb ? B{y} : B{};
    const U& cy = y;
    std::partial_ordering e = ha && hb ? std::partial_ordering(x <=> cy) : ha ? std::partial_ordering::greater : hb ? std::partial_ordering::less : std::partial_ordering::equivalent;
    std::partial_ordering r = 0 <=> e;
    six(a, b, e);
    six(b, a, r);
    std::partial_ordering en = ha ? std::partial_ordering::greater : std::partial_ordering::equivalent;
    six(a, std::nullopt, en);
    six(std::nullopt, a, 0 <=> en);
    std::partial_ordering ev = ha ? std::partial_ordering(x <=> cy) : std::partial_ordering::less;
    six(a, cy, ev);
    six(cy, a, 0 <=> ev);
    A a2 = a;
    six(a, a2, ha ? std::partial_ordering(x <=> x) : std::partial_ordering::equivalent);
    if (ha && hb) vf_cover("both bound");
    if (!ha && !hb) vf_cover("both empty");
}
VF_ENTRY(opt_cmp_u16) { opt_compare<u16, u16, u16, u16>(); }
VF_ENTRY(opt_cmp_mixed) { opt_compare<std::int32_t, std::int64_t, std::int32_t, std::int64_t>(); }
VF_ENTRY(opt_cmp_partial) { opt_compare<Partial, Partial, u16, u16>(); }
VF_ENTRY(opt_cmp_weak) { opt_compare<Weak, Weak, u16, u16>(); }
VF_ENTRY(opt_cmp_nt) { opt_compare<NT, NT, u16, u16>(); }
VF_ENTRY(opt_unique)
{
    vf_allow_alloc(1);
    u16 x = vf::sym<u16>();
    auto p = vf::coin() ? std::make_unique<u16>(x) : std::unique_ptr<u16>{};
    OptionalReference<u16> o{p};
    vf::check(o.has_value() == static_cast<bool>(p), "bound when the pointer owns an object");
    if (o) { vf::check(&*o == p.get() && *o == x, "denotes the owned object"); *o = 5; vf::check(*p == 5, "writes reach the owned object"); }
    vf_cover("unique");
}

// ------------------------------------------------------------ PairView
template <class A, class B>
bool denotes(PairView<A, B> v, const void* a, const void* b)
{
    const PairView<A, B>& c = v;
    auto& [x, y] = v;
    auto& [cx, cy] = c;
    return &v.first() == a && &v.second() == b && &c.first() == a && &c.second() == b && &v.template get<0>() == a && &v.template get<1>() == b
        && &c.template get<0>() == a && &c.template get<1>() == b && &std::get<0>(v) == a && &std::get<1>(c) == b && &std::get<1>(v) == b && &std::get<0>(c) == a
        && &x == a && &y == b && &cx == a && &cy == b;
}
template <class A, class B>
void pair_one()
{
    using RA = std::remove_cv_t<std::remove_reference_t<A>>;
    using RB = std::remove_cv_t<std::remove_reference_t<B>>;
    RA x[2] = {RA(vf::sym<u16>()), RA(vf::sym<u16>())};
    RB y[2] = {RB(vf::sym<u16>()), RB(vf::sym<u16>())};
    u16 mx[2] = {u16(raw(x[0])), u16(raw(x[1]))};
    u16 my[2] = {u16(raw(y[0])), u16(raw(y[1]))};
    using V = PairView<A, B>;
    using AV = pair_view_detail::AssignablePairView<A, B>;
    size_t i = vf::pick(0, 1), j = vf::pick(0, 1);
    AV v(&x[i], &y[j]);
    V plain(v);
    for (size_t step = 0; step < POPS; step++)
    {
        size_t k = vf::pick(0, 1), l = vf::pick(0, 1);
        switch (vf::pick(0, 5, "op"))
        {
        case 0: { AV w(&x[k], &y[l]); v = w; i = k; j = l; vf_cover("rebind"); break; }
        case 1: { AV w(&x[k], &y[l]); v = std::move(w); i = k; j = l; break; }
        case 2:
            if constexpr (!std::is_const_v<std::remove_reference_t<A>>) { u16 n = vf::sym<u16>(); if (vf::coin()) v.first() = RA(n); else v.template get<0>() = RA(n); mx[i] = n; vf_cover("write first"); }
            if constexpr (!std::is_const_v<std::remove_reference_t<B>>) { u16 n = vf::sym<u16>(); if (vf::coin()) v.second() = RB(n); else v.template get<1>() = RB(n); my[j] = n; vf_cover("write second"); }
            break;
        case 3:
        {
            std::pair<RA, RB> c1 = static_cast<const V&>(v);
            std::pair<int, int> c2{0, 0};
            if constexpr (std::is_same_v<RA, u16> && std::is_same_v<RB, u16>) { c2 = static_cast<std::pair<int, int>>(v); vf::check(c2.first == mx[i] && c2.second == my[j], "converts to a pair of other types"); }
            vf::check(raw(c1.first) == mx[i] && raw(c1.second) == my[j], "converts to a pair of the values");
            c1.first = RA(u16(raw(c1.first) + 1));
            break;
        }
        case 4:
        {
            V p(&x[k], &y[l]), q(&x[i], &y[j]);
            const V& pc = p;
            const V& vc = v;
            bool e = mx[k] == mx[i] && my[l] == my[j];
            if constexpr (std::is_same_v<PairView<std::remove_reference_t<A>, std::remove_reference_t<B>>, V>)
            {
                vf::check((pc == vc) == e && (vc == pc) == e && (pc != vc) == !e, "equal exactly when both referents are equal");
                vf::check(vc == static_cast<const V&>(q), "equal to a view of the same objects");
            }
            break;
        }
        case 5:
        {
            PairView<const RA, const RB> cv(static_cast<const V&>(v));
            vf::check(denotes(cv, &x[i], &y[j]), "a converted view denotes the same objects");
            vf_cover("convert");
            break;
        }
        }
        vf::check(denotes<A, B>(v, &x[i], &y[j]), "denotes the objects last bound");
        for (size_t t = 0; t < 2; t++) vf::check(raw(x[t]) == mx[t] && raw(y[t]) == my[t], "only writes through the view change a referent");
    }
    vf::obs(raw(plain.first()));
}
VF_ENTRY(pair_mm) { pair_one<u16, u16>(); }
VF_ENTRY(pair_cm) { pair_one<const u16, u16>(); }
VF_ENTRY(pair_cc) { pair_one<const u16, const NT>(); }
VF_ENTRY(pair_nt) { pair_one<NT, NT>(); }
VF_ENTRY(pair_ref) { pair_one<const u16&, NT&>(); }
VF_ENTRY(pair_assign)
{
    u16 x[2] = {vf::sym<u16>(), vf::sym<u16>()}, y[2] = {vf::sym<u16>(), vf::sym<u16>()};
    u16 x0 = x[0], x1 = x[1], y0 = y[0], y1 = y[1];
    PairView<u16, u16> a(&x[0], &y[0]), b(&x[1], &y[1]);
    if (vf::coin()) a = b; else a = std::move(b);
    vf::check(&a.first() == &x[1] && &a.second() == &y[1], "assignment rebinds");
    vf::check(x[0] == x0 && x[1] == x1 && y[0] == y0 && y[1] == y1, "assignment does not touch the referents");
    Pair<u16, NT> p{x0, NT{y0}};
    std::pair<u16, NT> q = p;
    std::pair<int, int> q2 = Pair<u16, u16>{x1, y1};
    const Pair<u16, u16> pc{x0, y0};
    std::pair<u32, u32> q3 = pc;
    vf::check(q.first == x0 && q.second.v == y0 && q2.first == x1 && q2.second == y1 && q3.first == x0 && q3.second == y0, "Pair converts to the same values");
    vf_cover("assign");
}

// values that, like a NaN, are not equal to themselves
struct NR
{
    u16 v;
    friend bool operator==(const NR& a, const NR& b) { return (a.v == b.v) & (a.v != 0); }
    friend std::partial_ordering operator<=>(const NR& a, const NR& b)
    {
        if ((a.v == 0) | (b.v == 0)) return std::partial_ordering::unordered;
        return a.v <=> b.v;
    }
};
VF_ENTRY(not_reflexive)
{
    NR x[2] = {{vf::sym<u16>()}, {vf::sym<u16>()}}, y[2] = {{vf::sym<u16>()}, {vf::sym<u16>()}};
    const size_t i = vf::pick(0, 1, "first i"), j = vf::pick(0, 1, "second i"), k = vf::pick(0, 1, "first j"), l = vf::pick(0, 1, "second j");
    const PairView<NR, NR> a(&x[i], &y[j]), b(&x[k], &y[l]);
    vf::check((a == b) == ((x[i] == x[k]) & (y[j] == y[l])), "pair views compare what they refer to");
    const OptionalReference<NR> p{x[i]}, q{x[k]}, n{};
    vf::check((p == q) == (x[i] == x[k]), "optional references compare what they refer to");
    vf::check((p == x[k]) == (x[i] == x[k]), "optional references compare with values");
    vf::check((p <=> q) == (x[i] <=> x[k]), "optional references order what they refer to");
    vf::check((p <=> x[k]) == (x[i] <=> x[k]), "optional references order against values");
    vf::check(n == n && p != n && (n <=> n) == 0 && n < p, "empty ones");
    vf_cover("not reflexive");
}

// ------------------------------------------------------------ ComparisonChain
template <class S, class T = S>
void chain()
{
    S a0{vf::sym<u16>()}, a1{vf::sym<u16>()}, a2{vf::sym<u16>()}, a3{vf::sym<u16>()};
    T b0{vf::sym<u16>()}, b1{vf::sym<u16>()}, b2{vf::sym<u16>()}, b3{vf::sym<u16>()};
    size_t n = vf::pick(0, 4, "pairs");
    int e = 0;
    auto cmp = [&](const S& x, const T& y) { if (e == 0) e = x < y ? -1 : y < x ? 1 : 0; };
    if (n > 0) cmp(a0, b0);
    if (n > 1) cmp(a1, b1);
    if (n > 2) cmp(a2, b2);
    if (n > 3) cmp(a3, b3);
    auto run = [&]() {
        auto c0 = ComparisonChain::start();
        if (n == 0) return c0;
        auto c1 = std::move(c0).compare(a0, b0);
        if (n == 1) return c1;
        auto c2 = std::move(c1).compare(a1, b1);
        if (n == 2) return c2;
        auto c3 = std::move(c2).compare(a2, b2);
        if (n == 3) return c3;
        return std::move(c3).compare(a3, b3);
    };
    vf::check(run().is_equal() == (e == 0), "is_equal");
    vf::check(run().is_not_equal() == (e != 0), "is_not_equal");
    vf::check(run().is_less() == (e < 0), "is_less");
    vf::check(run().is_less_or_equal() == (e <= 0), "is_less_or_equal");
    vf::check(run().is_greater() == (e > 0), "is_greater");
    vf::check(run().is_greater_or_equal() == (e >= 0), "is_greater_or_equal");
    if (n == 4 && e != 0) vf_cover("decided");
}
VF_ENTRY(chain_u16) { chain<u16>(); }
VF_ENTRY(chain_nt) { chain<NT>(); }
VF_ENTRY(chain_weak) { chain<Weak>(); }
VF_ENTRY(chain_mixed) { chain<std::int64_t, std::int32_t>(); }

// ------------------------------------------------------------ in_out / out
struct Amp { u16 v; Amp* operator&() { return nullptr; } };
template <class W, class T>
void wrap(T& x, T& other)
{
    u16 n = vf::sym<u16>(), o = other.v;
    W w{x};
    vf::check(std::addressof(*w) == std::addressof(x) && w.operator->() == std::addressof(x) && &w == std::addressof(x), "denotes the wrapped object");
    if (vf::coin()) w->v = n; else (*w) = T{n};
    vf::check(x.v == n && other.v == o, "writes reach the wrapped object only");
    W w2{*w};
    w2->v = static_cast<u16>(n + 1);
    vf::check(x.v == static_cast<u16>(n + 1), "a re-wrapped reference denotes the same object");
    vf_cover("wrap");
}
VF_ENTRY(wrappers)
{
    Amp a{vf::sym<u16>()}, b{vf::sym<u16>()};
    NT c{vf::sym<u16>()}, d{vf::sym<u16>()};
    switch (vf::pick(0, 3))
    {
    case 0: wrap<in_out<Amp>>(a, b); break;
    case 1: wrap<out<Amp>>(a, b); break;
    case 2: wrap<in_out<NT>>(c, d); break;
    case 3: wrap<out<NT>>(c, d); break;
    }
}
// references to objects that overload operator&
VF_ENTRY(amp_refs)
{
    Amp a{vf::sym<u16>()}, b{vf::sym<u16>()};
    u16 n = vf::sym<u16>(), y = b.v;
    Amp* pa = std::addressof(a);
    switch (vf::pick(0, 3))
    {
    case 0:
    {
        OptionalReference<Amp> o{a};
        vf::check(o.has_value() && std::addressof(*o) == pa && std::addressof(o.value()) == pa && o.operator->() == pa, "denotes the referent");
        o->v = n;
        break;
    }
    case 1:
    {
        OptionalReference<Amp> o{b};
        o = OptionalReference<Amp>{a};
        vf::check(std::addressof(*o) == pa, "rebound");
        o.value().v = n;
        break;
    }
    case 2:
    {
        OptionalReference<Amp> o;
        o.emplace(a);
        vf::check(o.has_value() && std::addressof(*o) == pa, "emplaced");
        (*o).v = n;
        break;
    }
    case 3:
    {
        PairView<Amp, Amp> p{pa, std::addressof(b)};
        PairView<const Amp, const Amp> c{p};
        vf::check(std::addressof(p.first()) == pa && std::addressof(c.first()) == pa && std::addressof(c.second()) == std::addressof(b), "denotes the pair");
        p.first().v = n;
        break;
    }
    }
    vf::check((a.v == n) & (b.v == y), "writes reach the referent only");
    vf_cover("amp refs");
}
