// Elements whose list constructor takes anything: a container that initialises with braces where the
// standard one uses parentheses builds something else.
#pragma once
#include "types.h"
#include <tuple>
#include <utility>
namespace greedy
{
struct G
{
    u16 v;
    u16 list = 0;
    G() : v(0) {}
    G(u16 x) : v(x) {}
    explicit G(u16 a, u16 b) : v(static_cast<u16>(a ^ (b << 1))) {}
    G(std::initializer_list<G> l) : v(0), list(1) { (void)l; }
    G(const G& o) : v(o.v), list(o.list) {}
    G(G&& o) noexcept : v(o.v), list(o.list) {}
    G& operator=(const G& o) { v = o.v; list = o.list; return *this; }
    G& operator=(G&& o) noexcept { v = o.v; list = o.list; return *this; }
    ~G() {}
    friend bool operator==(const G& a, const G& b) { return a.v == b.v; }
    friend auto operator<=>(const G& a, const G& b) { return a.v <=> b.v; }
};
struct HG { size_t operator()(const G& g) const { return g.v; } };
inline u16 two(u16 a, u16 b) { return static_cast<u16>(a ^ (b << 1)); }
inline void is(const G& g, u16 x, const char* what) { vf::check((g.v == x) & (g.list == 0), what); }

template <class C>
void seq()
{
    const u16 a = vf::sym<u16>("a"), b = vf::sym<u16>("b");
    const G g(a);
    C c{};
    u16 x = a;
    size_t n = 1;
    switch (vf::pick(0, 12, "op"))
    {
    case 0: c.push_back(g); break;
    case 1: c.push_back(G(a)); break;
    case 2: c.emplace_back(a, b); x = two(a, b); break;
    case 3: c.emplace(c.cbegin(), a, b); x = two(a, b); break;
    case 4: c.emplace_back(g); break;
    case 5: c.insert(c.cbegin(), g); break;
    case 6: c.insert(c.cbegin(), G(a)); break;
    case 7: c.insert(c.cend(), std::addressof(g), std::addressof(g) + 1); break;
    case 8: c.resize(2, g); n = 2; break;
    case 9: c.assign(2, g); n = 2; break;
    case 10: if constexpr (requires { c.emplace_front(a, b); }) { c.emplace_front(a, b); x = two(a, b); } else { c.emplace_back(); x = 0; } break;
    case 11: if constexpr (requires { c.push_front(g); }) c.push_front(g); else c.push_back(g); break;
    case 12: c.resize(2); n = 2; x = 0; break;
    }
    vf::check(c.size() == n, "size");
    for (const G& e : c) is(e, x, "the element is built as the standard container would");
    C d(c);
    for (const G& e : d) is(e, x, "copy");
    C f(std::move(d));
    for (const G& e : f) is(e, x, "move");
    C h(2, g);
    h = f;
    for (const G& e : h) is(e, x, "copy assignment");
    f = C(2, g);
    for (const G& e : f) is(e, a, "counted constructor and move assignment");
    vf_cover("greedy sequence");
}
template <class C>
void adapter()
{
    const u16 a = vf::sym<u16>("a"), b = vf::sym<u16>("b");
    const G g(a);
    C c{};
    switch (vf::pick(0, 3, "op"))
    {
    case 0: c.push(g); break;
    case 1: c.push(G(a)); break;
    case 2: c.emplace(g); break;
    case 3: is(c.emplace(a, b), two(a, b), "emplace returns the element"); break;
    }
    const u16 x = c.size() == 1 ? 0 : 1;
    vf::check(x == 0, "one element");
    const G& t = [&]() -> const G& { if constexpr (requires { c.top(); }) return c.top(); else return c.front(); }();
    vf::check(t.list == 0 && ((t.v == a) | (t.v == two(a, b))), "the element is built as the standard adapter would");
    C d(c);
    vf::check(d == c, "copy");
    vf_cover("greedy adapter");
}
template <class C>
void map()
{
    const u16 a = vf::sym<u16>("a"), b = vf::sym<u16>("b"), k = vf::sym<u16>("k"), l = vf::sym<u16>("l");
    using P = typename C::value_type;
    const G g(a), kk(k);
    u16 x = a, key = k;
    C c{};
    switch (vf::pick(0, 10, "op"))
    {
    case 0: c.try_emplace(kk, g); break;
    case 1: c.try_emplace(G(k), a, b); x = two(a, b); break;
    case 2: c.emplace(kk, g); break;
    case 3: c.emplace(std::piecewise_construct, std::forward_as_tuple(k, l), std::forward_as_tuple(a, b)); key = two(k, l); x = two(a, b); break;
    case 4: c.insert(P(kk, g)); break;
    case 5: c.insert_or_assign(kk, g); break;
    case 6: c[kk] = g; break;
    case 7: (void)c[G(k)]; x = 0; break;
    case 8: { const P p(kk, g); c.emplace(p); break; }
    case 9: c.emplace(std::piecewise_construct, std::forward_as_tuple(kk), std::forward_as_tuple(a, b)); x = two(a, b); break;
    case 10: c.emplace(std::piecewise_construct, std::forward_as_tuple(k, l), std::forward_as_tuple()); key = two(k, l); x = 0; break;
    }
    vf::check(c.size() == 1, "size");
    auto entry = [&](const C& m, const char* what) { is(m.begin()->first, key, what); is(m.begin()->second, x, what); };
    entry(c, "the entry is built as the standard container would");
    C d(c);
    entry(d, "copy");
    C f(std::move(d));
    entry(f, "move");
    C h{};
    h.try_emplace(G(l), b);
    h = f;
    entry(h, "assignment");
    vf_cover("greedy map");
}
// a map with enum keys
template <class C, class K>
void enum_map(K kk, K other)
{
    const u16 a = vf::sym<u16>("a"), b = vf::sym<u16>("b");
    using P = typename C::value_type;
    const G g(a);
    u16 x = a;
    C c{};
    switch (vf::pick(0, 8, "op"))
    {
    case 0: c.try_emplace(kk, g); break;
    case 1: c.try_emplace(kk, a, b); x = two(a, b); break;
    case 2: c.emplace(kk, g); break;
    case 3: c.emplace(std::piecewise_construct, std::forward_as_tuple(kk), std::forward_as_tuple(a, b)); x = two(a, b); break;
    case 4: c.insert(P(kk, g)); break;
    case 5: c.insert_or_assign(kk, g); break;
    case 6: c[kk] = g; break;
    case 7: (void)c[kk]; x = 0; break;
    case 8: c.try_emplace(c.cend(), kk, a, b); x = two(a, b); break;
    }
    vf::check(c.size() == 1, "size");
    auto entry = [&](const C& m, const char* what) { vf::check(m.contains(kk), what); is(m.at(kk), x, what); };
    entry(c, "the entry is built as the standard container would");
    C d(c);
    entry(d, "copy");
    C f(std::move(d));
    entry(f, "move");
    C h{};
    h.try_emplace(other, b);
    h = f;
    entry(h, "assignment");
    C k{};
    k.try_emplace(other, b);
    k = std::move(f);
    entry(k, "move assignment");
    vf_cover("greedy enum map");
}
template <class C>
void set()
{
    const u16 a = vf::sym<u16>("a"), b = vf::sym<u16>("b");
    const G g(a);
    u16 x = a;
    C c{};
    switch (vf::pick(0, 6, "op"))
    {
    case 0: c.insert(g); break;
    case 1: c.insert(G(a)); break;
    case 2: c.emplace(g); break;
    case 3: c.emplace(a, b); x = two(a, b); break;
    case 4: c.emplace_hint(c.cend(), a, b); x = two(a, b); break;
    case 5: c.emplace(a); break;
    case 6: c.insert(c.cend(), g); break;
    }
    vf::check(c.size() == 1, "size");
    is(*c.begin(), x, "the key is built as the standard container would");
    C d(c);
    is(*d.begin(), x, "copy");
    C f(std::move(d));
    is(*f.begin(), x, "move");
    C h{};
    h.insert(G(b));
    h = f;
    is(*h.begin(), x, "assignment");
    vf_cover("greedy set");
}
// Elements constructible from everything (as std::any is): any initialisation with braces would build
// a list, and any initialisation from the wrong thing compiles.
struct A
{
    u16 v;
    u16 how;
    A() : v(0), how(0) {}
    A(const A& o) : v(o.v), how(o.how) {}
    A(A&& o) noexcept : v(o.v), how(o.how) {}
    template <class X> requires(!std::is_same_v<std::remove_cvref_t<X>, A>) A(X&& x) : v(0), how(1)
    {
        if constexpr (std::is_same_v<std::remove_cvref_t<X>, u16>) { v = x; how = 0; }
    }
    A& operator=(const A& o) { v = o.v; how = o.how; return *this; }
    A& operator=(A&& o) noexcept { v = o.v; how = o.how; return *this; }
    ~A() {}
    friend bool operator==(const A& a, const A& b) { return (a.v == b.v) & (a.how == b.how); }
};
inline void is(const A& g, u16 x, const char* what) { vf::check((g.v == x) & (g.how == 0), what); }
template <class C>
void any_seq()
{
    const u16 a = vf::sym<u16>("a"), b = vf::sym<u16>("b");
    const A two_[2] = {A(a), A(b)};
    auto is2 = [&](const C& c, u16 x, u16 y, const char* what)
    {
        vf::check(c.size() == 2, what);
        is(*c.begin(), x, what);
        is(*std::next(c.begin()), y, what);
    };
    const auto run = [&](C& c, u16 x, u16 y)
    {
        is2(c, x, y, "the elements are those given");
        C d(c);
        is2(d, x, y, "copy");
        C e(std::move(d));
        is2(e, x, y, "move");
        C f{};
        f = c;
        is2(f, x, y, "copy assignment");
        f = std::move(e);
        is2(f, x, y, "move assignment");
    };
    switch (vf::pick(0, 9, "op"))
    {
    case 0: { C c(two_, two_ + 2); run(c, a, b); break; }
    case 1: { C c(size_t{2}, two_[0]); run(c, a, a); break; }
    case 2: { C c(std::initializer_list<A>{two_[0], two_[1]}); run(c, a, b); break; }
    case 3: { C c(size_t{2}); run(c, 0, 0); break; }
    case 4: { C c{}; c.push_back(two_[0]); c.emplace_back(b); run(c, a, b); break; }
    case 5: { C c{}; c.insert(c.cend(), two_, two_ + 2); run(c, a, b); break; }
    case 6: { C c{}; c.assign(two_, two_ + 2); run(c, a, b); break; }
    case 7: { C c{}; c.emplace(c.cbegin(), b); c.insert(c.cbegin(), A(a)); run(c, a, b); break; }
    case 8: { C c{}; c.resize(2, two_[1]); run(c, b, b); break; }
    case 9: { C c{}; c.resize(3); c.erase(c.cbegin()); run(c, 0, 0); break; }
    }
    vf_cover("any sequence");
}
template <class C>
void any_adapter()
{
    const u16 a = vf::sym<u16>("a"), b = vf::sym<u16>("b");
    const A two_[2] = {A(a), A(b)};
    C c(two_, two_ + 2);
    vf::check(c.size() == 2, "size");
    C d(c);
    C e(std::move(c));
    vf::check(d == e, "copy and move");
    auto head = [](C& x) -> A& { if constexpr (requires { x.top(); }) return x.top(); else return x.front(); };
    constexpr bool LIFO = requires { d.top(); };
    is(head(d), LIFO ? b : a, "head");
    d.pop();
    is(head(d), LIFO ? a : b, "next");
    d.emplace(b);
    d.push(two_[0]);
    vf::check(d.size() == 3, "size");
    vf_cover("any adapter");
}
template <class C, class K>
void any_map(K k, K l)
{
    const u16 a = vf::sym<u16>("a");
    using P = typename C::value_type;
    const A v(a);
    C c{};
    u16 x = a;
    switch (vf::pick(0, 6, "op"))
    {
    case 0: c.try_emplace(k, v); break;
    case 1: c.try_emplace(k, a); break;
    case 2: c.emplace(k, v); break;
    case 3: c.insert(P(k, v)); break;
    case 4: c.insert_or_assign(k, v); break;
    case 5: c[k] = v; break;
    case 6: (void)c[k]; x = 0; break;
    }
    auto entry = [&](const C& m, const char* what) { vf::check(m.size() == 1, what); is(m.at(k), x, what); };
    entry(c, "the value is the one given");
    C d(c);
    entry(d, "copy");
    C f(std::move(d));
    entry(f, "move");
    C h{};
    h.try_emplace(l, v);
    h = f;
    entry(h, "assignment");
    h.insert_or_assign(k, v);
    vf::check(h.size() == 1, "assigned");
    is(h.at(k), a, "assigned");
    vf_cover("any map");
}
struct LA { bool operator()(const A& a, const A& b) const { return a.v < b.v; } };
struct HA { size_t operator()(const A& a) const { return a.v; } };
struct EA { bool operator()(const A& a, const A& b) const { return a.v == b.v; } };
template <class C>
void both_of(const C& c, u16 a, u16 b)
{
    vf::check(c.size() == 2, "size");
    vf::check(c.contains(A(a)) & c.contains(A(b)), "the keys are those given");
}
template <class C, class Make>
void any_set(Make make)
{
    const u16 a = vf::sym<u16>("a"), b = vf::sym<u16>("b");
    vf_assume(a < b);
    const A two_[2] = {A(a), A(b)};
    auto both = [&](const C& c, const char* what)
    {
        vf::check(c.size() == 2, what);
        vf::check(c.contains(two_[0]) & c.contains(two_[1]), what);
        u16 hows = 0;
        for (const A& e : c) hows |= e.how;
        vf::check(hows == 0, what);
    };
    auto run = [&](C& c)
    {
        both(c, "the keys are those given");
        C d(c);
        both(d, "copy");
        C e(std::move(d));
        both(e, "move");
        C f{};
        f.insert(A(a));
        f = e;
        both(f, "assignment");
    };
    switch (vf::pick(0, 5, "op"))
    {
    case 0: { C c{}; vf::check(c.empty(), "empty"); c.insert(two_[0]); c.insert(A(b)); run(c); break; }
    case 1: { C c(two_, two_ + 2); run(c); break; }
    case 2: { C c(std::initializer_list<A>{two_[0], two_[1]}); run(c); break; }
    case 3: { C c{}; c.emplace(a); c.emplace(two_[1]); run(c); break; }
    case 4: { C c{}; c.insert(two_, two_ + 2); c.erase(c.begin()); vf::check(c.size() == 1, "erased"); c.insert(two_, two_ + 2); run(c); break; }
    case 5: { auto c = make(two_); both_of(c, a, b); break; }
    }
    vf_cover("any set");
}
}  // namespace greedy
