// Keys that are equivalent but distinguishable: the key that was inserted first stays.
#pragma once
#include "types.h"
#include <tuple>
#include <utility>
namespace tagged
{
struct K
{
    u16 k;
    u16 tag;
    K(u16 a, u16 t) : k(a), tag(t) {}
    K(const K& o) : k(o.k), tag(o.tag) {}
    K(K&& o) noexcept : k(o.k), tag(o.tag) {}
    K& operator=(const K& o) { k = o.k; tag = o.tag; return *this; }
    K& operator=(K&& o) noexcept { k = o.k; tag = o.tag; return *this; }
    ~K() {}
};
struct Less { bool operator()(const K& a, const K& b) const { return a.k < b.k; } };
struct Hash { size_t operator()(const K& a) const { return a.k; } };
struct Eq { bool operator()(const K& a, const K& b) const { return a.k == b.k; } };

template <size_t N>
struct Keys
{
    u16 k[N], tag[N];
    size_t n;
};
template <size_t N, class Put>
Keys<N> fill(Put put)
{
    Keys<N> m;
    m.n = vf::pick(1, N, "n");
    for (size_t i = 0; i < m.n; i++)
    {
        m.k[i] = vf::sym<u16>("k");
        m.tag[i] = vf::sym<u16>("tag");
        for (size_t j = 0; j < i; j++) vf_assume(m.k[i] != m.k[j]);
        put(K(m.k[i], m.tag[i]), i);
    }
    return m;
}
template <class C, size_t N>
void set()
{
    C c{};
    const Keys<N> m = fill<N>([&](const K& k, size_t) { c.insert(k); });
    const size_t at = vf::pick(0, m.n - 1, "at");
    const u16 t = vf::sym<u16>("new tag");
    const K other(m.k[at], t);
    switch (vf::pick(0, 8, "op"))
    {
    case 0: { const auto r = c.insert(other); vf::check(!r.second & (r.first->k == m.k[at]) & (r.first->tag == m.tag[at]), "insert returns the key that was there"); break; }
    case 1: { const auto r = c.insert(K(other)); vf::check(!r.second & (r.first->k == m.k[at]) & (r.first->tag == m.tag[at]), "insert returns the key that was there"); break; }
    case 2: { const auto r = c.emplace(m.k[at], t); vf::check(!r.second & (r.first->k == m.k[at]) & (r.first->tag == m.tag[at]), "emplace returns the key that was there"); break; }
    case 3: vf::check(c.insert(c.cbegin(), other)->tag == m.tag[at], "insert with a hint returns the key that was there"); break;
    case 4: (void)c.emplace_hint(c.cend(), m.k[at], t); break;
    case 5: { const K two[2] = {other, other}; c.insert(two, two + 2); break; }
    case 6: c.insert({other, K(m.k[0], t)}); break;
    case 7: vf::check(c.contains(other) & (c.count(other) == 1) & (c.find(other)->tag == m.tag[at]), "lookups find the key that is there"); break;
    case 8:
    {
        vf::check(c.erase(other) == 1, "erased by an equivalent key");
        vf::check((c.size() == m.n - 1) & !c.contains(other), "erased");
        const auto r = c.insert(other);
        vf::check(r.second & (r.first->tag == t), "a re-inserted key is the new one");
        vf_cover("tagged set again");
        return;
    }
    }
    vf::check(c.size() == m.n, "size");
    const C d(c);
    for (size_t i = 0; i < m.n; i++)
    {
        vf::check(c.find(K(m.k[i], t))->tag == m.tag[i], "the key that was inserted first stays");
        vf::check(d.find(K(m.k[i], t))->tag == m.tag[i], "copies hold the same keys");
    }
    vf_cover("tagged set");
}
template <class C, size_t N>
void map()
{
    using P = typename C::value_type;
    C c{};
    u16 v[N];
    const Keys<N> m = fill<N>([&](const K& k, size_t i) { v[i] = vf::sym<u16>("v"); c.try_emplace(k, v[i]); });
    const size_t at = vf::pick(0, m.n - 1, "at");
    const u16 t = vf::sym<u16>("new tag"), w = vf::sym<u16>("w");
    const K other(m.k[at], t);
    bool assigned = false;
    switch (vf::pick(0, 11, "op"))
    {
    case 0: { const auto r = c.insert(P(other, w)); vf::check(!r.second & (r.first->first.tag == m.tag[at]), "insert returns the entry that was there"); break; }
    case 1: { const P p(other, w); const auto r = c.insert(p); vf::check(!r.second & (r.first->first.tag == m.tag[at]), "insert returns the entry that was there"); break; }
    case 2: { const auto r = c.emplace(other, w); vf::check(!r.second & (r.first->first.tag == m.tag[at]), "emplace returns the entry that was there"); break; }
    case 3: { const auto r = c.try_emplace(other, w); vf::check(!r.second & (r.first->first.tag == m.tag[at]), "try_emplace returns the entry that was there"); break; }
    case 4: { const auto r = c.try_emplace(K(other), w); vf::check(!r.second & (r.first->first.tag == m.tag[at]), "try_emplace returns the entry that was there"); break; }
    case 5: { const auto r = c.insert_or_assign(other, w); vf::check(!r.second & (r.first->first.tag == m.tag[at]), "insert_or_assign returns the entry that was there"); assigned = true; break; }
    case 6: { const auto r = c.insert_or_assign(K(other), w); vf::check(!r.second & (r.first->first.tag == m.tag[at]), "insert_or_assign returns the entry that was there"); assigned = true; break; }
    case 7: c[other] = w; assigned = true; break;
    case 8: c[K(other)] = w; assigned = true; break;
    case 9: (void)c.insert_or_assign(c.cbegin(), other, w); assigned = true; break;
    case 10: c.insert({P(other, w)}); break;
    case 11:
    {
        vf::check(c.erase(other) == 1, "erased by an equivalent key");
        vf::check((c.size() == m.n - 1) & !c.contains(other), "erased");
        const auto r = c.try_emplace(other, w);
        vf::check(r.second & (r.first->first.tag == t) & (r.first->second == w), "a re-inserted key is the new one");
        vf_cover("tagged map again");
        return;
    }
    }
    vf::check(c.size() == m.n, "size");
    const C d(c);
    for (size_t i = 0; i < m.n; i++)
    {
        const u16 e = assigned & (i == at) ? w : v[i];
        vf::check(c.find(K(m.k[i], t))->first.tag == m.tag[i], "the key that was inserted first stays");
        vf::check(c.at(K(m.k[i], t)) == e, "the entry has its value");
        vf::check((d.find(K(m.k[i], t))->first.tag == m.tag[i]) & (d.at(K(m.k[i], t)) == e), "copies hold the same entries");
    }
    vf_cover("tagged map");
}
}  // namespace tagged
