// what the sequences do with the arguments of their inserting operations: lvalues and the elements of ranges are left alone, rvalues are moved from,
// elements of move-only types can be used throughout
#pragma once
#include "seq_ops.h"
#include <utility>
namespace args
{
// move-only
struct MO
{
    u16 v = 0;
    MO() = default;
    MO(u16 x) : v(x) {}
    MO(u8 a, u8 b) : v(static_cast<u16>(a << 8 | b)) {}
    MO(MO&& o) noexcept : v(o.v) { o.v = 0xDEAD; }
    MO& operator=(MO&& o) noexcept { if (this != &o) { v = o.v; o.v = 0xDEAD; } return *this; }
    ~MO() { v = 0xDDDD; }
};
template <class C, seq::Kind K, size_t N, class F>
void with(F op)
{
    using T = typename C::value_type;
    C c{};
    u16 m[N + 1];
    size_t n = vf::pick(0, N, "n");
    if constexpr (K == seq::Kind::DEQUE || K == seq::Kind::CIRCULAR)
    {
        const size_t r = vf::pick(0, N, "rot");
        for (size_t i = 0; i < r; i++) { c.push_back(T(u16{7})); c.pop_front(); }
    }
    for (size_t i = 0; i < n; i++)
    {
        m[i] = vf::sym<u16>("e");
        c.emplace_back(m[i]);
    }
    const size_t p = vf::pick(0, n, "p");
    const u16 x = vf::sym<u16>("x");
    vf_assume(x != 0xDEAD && x != 0xDDDD);
    const bool full = n == N;
    if (full && K != seq::Kind::CIRCULAR) vf_end();
    auto it = c.cbegin();
    for (size_t i = 0; i < p; i++) ++it;
    const size_t at = op(c, it, p, n, x);  // where the new element goes
    // a full circular deque drops the front for insertions behind it and the back for push_front
    size_t e = 0;
    u16 want[N + 1];
    for (size_t i = 0; i <= n; i++)
        want[e++] = i < at ? m[i] : i == at ? x : m[i - 1];
    if (full)
    {
        if (at == 0) e--;
        else { for (size_t i = 0; i + 1 < e; i++) want[i] = want[i + 1]; e--; }
    }
    vf::check(c.size() == e, "size");
    size_t i = 0;
    for (auto j = c.begin(); j != c.end() && i < e; ++j, i++) vf::check(j->v == want[i], "elements");
    vf::check(i == e, "iteration");
    vf_cover("arguments");
}
template <class C, seq::Kind K, size_t N>
void copyable()
{
    using T = typename C::value_type;
    with<C, K, N>([](C& c, typename C::const_iterator it, size_t p, size_t n, u16 x) -> size_t
    {
        T a(x);
        bool lvalue = false;
        size_t at = p;
        const bool noop = n == N && p == 0;  // inserting in front of everything into a full circular deque changes nothing
        switch (vf::pick(0, 9, "op"))
        {
        case 0: if (p) vf_end(); c.push_back(a); lvalue = true; at = n; break;
        case 1: if (p) vf_end(); c.push_back(std::move(a)); at = n; break;
        case 2: if (p) vf_end(); c.emplace_back(a); lvalue = true; at = n; break;
        case 3: if (p) vf_end(); c.emplace_back(std::move(a)); at = n; break;
        case 4: if (noop) vf_end(); c.insert(it, a); lvalue = true; break;
        case 5: if (noop) vf_end(); c.insert(it, std::move(a)); break;
        case 6: if (noop) vf_end(); c.emplace(it, a); lvalue = true; break;
        case 7: if (noop) vf_end(); c.emplace(it, std::move(a)); break;
        case 8: if (noop) vf_end(); c.insert(it, &a, &a + 1); lvalue = true; break;
        default:
            if constexpr (K != seq::Kind::VECTOR)
            {
                if (p) vf_end();
                at = 0;
                switch (vf::pick(0, 3, "front"))
                {
                case 0: c.push_front(a); lvalue = true; break;
                case 1: c.push_front(std::move(a)); break;
                case 2: c.emplace_front(a); lvalue = true; break;
                default: c.emplace_front(std::move(a));
                }
            }
            else { c.insert(it, {a}); lvalue = true; }
        }
        vf::check(a.v == (lvalue ? x : 0xDEAD), lvalue ? "an lvalue argument is left alone" : "an rvalue argument is moved from");
        return at;
    });
}
template <class C, seq::Kind K, size_t N>
void move_only()
{
    with<C, K, N>([](C& c, typename C::const_iterator it, size_t p, size_t n, u16 x) -> size_t
    {
        MO a(x);
        size_t at = p;
        const bool noop = n == N && p == 0;  // inserting in front of everything into a full circular deque changes nothing
        bool used = true;
        switch (vf::pick(0, 5, "op"))
        {
        case 0: if (p) vf_end(); c.push_back(std::move(a)); at = n; break;
        case 1: if (p) vf_end(); c.emplace_back(static_cast<u8>(x >> 8), static_cast<u8>(x)); at = n; used = false; break;
        case 2: if (noop) vf_end(); c.insert(it, std::move(a)); break;
        case 3: if (noop) vf_end(); c.emplace(it, static_cast<u8>(x >> 8), static_cast<u8>(x)); used = false; break;
        case 4: if (noop) vf_end(); c.insert(it, std::make_move_iterator(&a), std::make_move_iterator(&a + 1)); break;
        default:
            if constexpr (K != seq::Kind::VECTOR)
            {
                if (p) vf_end();
                at = 0;
                if (vf::coin("emplace")) { c.emplace_front(static_cast<u8>(x >> 8), static_cast<u8>(x)); used = false; }
                else c.push_front(std::move(a));
            }
            else vf_end();
        }
        vf::check(a.v == (used ? 0xDEAD : x), "an rvalue argument is moved from");
        return at;
    });
}
// moving whole containers of move-only elements, erasing from them
template <class C, size_t N>
void move_only_whole()
{
    C c{};
    u16 m[N];
    size_t n = vf::pick(0, N, "n");
    for (size_t i = 0; i < n; i++) { m[i] = vf::sym<u16>("e"); c.emplace_back(m[i]); }
    auto same = [&](C& d)
    {
        vf::check(d.size() == n, "size");
        size_t i = 0;
        for (auto j = d.begin(); j != d.end() && i < n; ++j, i++) vf::check(j->v == m[i], "elements");
        vf::check(i == n, "iteration");
    };
    C d(std::move(c));
    same(d);
    C e{};
    if (vf::coin("nonempty")) e.emplace_back(u16{3});
    e = std::move(d);
    same(e);
    if (n)
    {
        const size_t p = vf::pick(0, n - 1, "p");
        auto it = e.cbegin();
        for (size_t i = 0; i < p; i++) ++it;
        e.erase(it);
        for (size_t i = p; i + 1 < n; i++) m[i] = m[i + 1];
        n--;
        same(e);
    }
    vf_cover("move-only containers");
}
}  // namespace args
