// 65540 elements: sizes and indices do not fit 16 bits
#pragma once
#include "box.h"
namespace huge
{
constexpr size_t N = 65540;
// back-end growth across 65535 and access around it
template <class C>
void seq()
{
    static Box<C> box;
    C& c = box.make();
    using T = typename C::value_type;
    c.resize(65530, T(5));
    vf::check(c.size() == 65530, "size");
    u8 v[10];
    for (size_t i = 0; i < 10; i++)
    {
        v[i] = vf::sym<u8>("x");
        c.push_back(static_cast<T>(v[i]));
        vf::check(c.size() == 65531 + i && is_full(c) == (i == 9), "size");
        vf::check(static_cast<u8>(c.back()) == v[i] && static_cast<u8>(c.front()) == 5, "ends");
    }
    auto it = c.cend();
    for (size_t i = 10; i-- > 0;) { --it; vf::check(static_cast<u8>(*it) == v[i], "iteration"); }
    if constexpr (requires { c[0]; })
    {
        for (size_t i = 0; i < 10; i++) vf::check(static_cast<u8>(c[65530 + i]) == v[i] && static_cast<u8>(c.at(65530 + i)) == v[i], "index");
        vf::check(c.end() - c.begin() == static_cast<std::ptrdiff_t>(N), "distance");
    }
    const size_t e = vf::pick(0, 9, "e");
    it = c.cend();
    for (size_t i = e; i < 10; i++) --it;
    c.erase(it);
    vf::check(c.size() == N - 1, "size after erase");
    auto jt = c.cend();
    for (size_t i = 10; i-- > 0;)
        if (i != e) { --jt; vf::check(static_cast<u8>(*jt) == v[i], "order after erase"); }
    if constexpr (requires { c.pop_front(); })
    {
        c.pop_front();
        c.push_back(static_cast<T>(9));
        vf::check(static_cast<u8>(c.back()) == 9 && static_cast<u8>(c.front()) == 5 && c.size() == N - 1, "moved window");
    }
    c.resize(65535);
    vf::check(c.size() == 65535, "resize");
    c.clear();
    vf::check(c.size() == 0 && c.empty(), "clear");
    vf_cover("huge sequence");
}
}  // namespace huge
namespace huge
{
// more entries than 16 bits can count; concrete keys, symbolic values around the boundary
template <bool MAP, class C, class F>
void assoc(F key)
{
    static Box<C> box;
    C& c = box.make();
    auto put = [&](u32 k, u16 v)
    {
        if constexpr (MAP) return c.try_emplace(key(k), v).second;
        else { (void)v; return c.insert(key(k)).second; }
    };
    for (u32 i = 0; i < 65530; i++) put(i, 5);
    vf::check(c.size() == 65530 && !is_full(c), "size");
    u16 v[10];
    for (u32 i = 0; i < 10; i++)
    {
        v[i] = vf::sym<u16>("v");
        vf::check(put(65530 + i, v[i]), "inserted");
        vf::check(c.size() == 65531 + i && is_full(c) == (i == 9), "size");
        vf::check(!put(65530 + i, 1) && !put(i, 1), "present keys are not inserted again");
    }
    auto good = [&](u32 k)
    {
        auto it = c.find(key(k));
        vf::check(it != c.end() && c.contains(key(k)), "present key found");
        if (it == c.end()) return;
        if constexpr (MAP) vf::check(it->first == key(k) && it->second == (k >= 65530 ? v[k - 65530] : 5), "entry");
        else vf::check(*it == key(k), "entry");
    };
    for (u32 i = 0; i < 10; i++) { good(65530 + i); good(i); good(32763 + i); good(255 + i); }
    vf::check(!c.contains(key(65540)) && !c.contains(key(131072)), "absent key");
    const u32 e = 65530 + static_cast<u32>(vf::pick(0, 9, "e"));
    vf::check(c.erase(key(e)) == 1 && c.erase(key(e)) == 0 && c.size() == N - 1 && !c.contains(key(e)), "erased");
    for (u32 i = 0; i < 10; i++) { if (65530 + i != e) good(65530 + i); good(i); }
    vf::check(c.erase(key(0)) == 1 && !c.contains(key(0)) && c.size() == N - 2, "erased");
    const u16 w = vf::sym<u16>("w");
    vf::check(put(e, w) && c.size() == N - 1, "inserted again");
    if constexpr (MAP) { vf::check(c.at(key(e)) == w, "entry"); v[e - 65530] = w; }
    for (u32 i = 0; i < 10; i++) { good(65530 + i); good(i + 1); }
    vf_cover("huge");
}
}
