// what the inserting operations of the maps do with their arguments: they are moved from exactly when they should be, and may refer to the map's own entries
#pragma once
#include "assoc_ops.h"
#include <tuple>
#include <utility>
namespace args
{
template <class K> K key(u16 x) { if constexpr (std::is_same_v<K, NT>) return NT(x); else return assoc::mk<K>(x); }
inline u16 num(const NT& k) { return k.v; }
template <class K> bool untouched(const K& k, u16 x) { return k == key<K>(x); }
template <class K> bool moved(const K& k, u16 x) { if constexpr (std::is_same_v<K, NT>) return k.v == 0xDEAD; else return k == key<K>(x); }

template <class C, size_t N, bool SYMKEYS>
void run()
{
    using K = typename C::key_type;
    using V = typename C::mapped_type;
    using P = std::pair<K, V>;
    C c{};
    const size_t n = vf::pick(0, N, "n");
    u16 k[N], v[N];
    for (size_t i = 0; i < n; i++)
    {
        k[i] = SYMKEYS ? vf::sym<u16>("k") : static_cast<u16>(i);
        v[i] = vf::sym<u16>("v");
        vf_assume(k[i] != 0xDEAD && k[i] != 0xDDDD && v[i] != 0xDEAD && v[i] != 0xDDDD);
        for (size_t j = 0; j < i; j++) vf_assume(k[i] != k[j]);
        c.try_emplace(key<K>(k[i]), v[i]);
    }
    vf::check(c.size() == n, "size");
    const size_t at = vf::pick(0, N, "at");  // the entry with the key, or none
    u16 kk;
    if (at < n) kk = k[at];
    else
    {
        if (at != N || n == N) vf_end();
        kk = SYMKEYS ? vf::sym<u16>("kk") : static_cast<u16>(N - 1);
        vf_assume(kk != 0xDEAD && kk != 0xDDDD);
        for (size_t j = 0; j < n; j++) vf_assume(kk != k[j]);
    }
    const bool present = at < n;
    const u16 vv = vf::sym<u16>("vv");
    vf_assume(vv != 0xDEAD && vv != 0xDDDD);
    bool assigned = false, inserted = !present;
    K ka = key<K>(kk);
    V va(vv);
    u16 result = vv;
    switch (vf::pick(0, 15, "op"))
    {
    case 0:
        vf::check(c.try_emplace(std::move(ka), std::move(va)).second == !present, "returned flag");
        vf::check(present ? untouched(ka, kk) && va.v == vv : moved(ka, kk) && va.v == 0xDEAD, "try_emplace consumes its arguments only to insert");
        break;
    case 1:
        (void)c.try_emplace(c.cend(), std::move(ka), std::move(va));
        vf::check(present ? untouched(ka, kk) && va.v == vv : moved(ka, kk) && va.v == 0xDEAD, "try_emplace with a hint consumes its arguments only to insert");
        break;
    case 2:
        vf::check(c.try_emplace(ka, std::move(va)).second == !present, "returned flag");
        vf::check(untouched(ka, kk) && (va.v == (present ? vv : 0xDEAD)), "try_emplace leaves an lvalue key alone");
        break;
    case 3:
        vf::check(c.try_emplace(ka, va).second == !present, "returned flag");
        vf::check(untouched(ka, kk) && va.v == vv, "try_emplace leaves lvalues alone");
        break;
    case 4:
        vf::check(c.insert_or_assign(std::move(ka), std::move(va)).second == !present, "returned flag");
        vf::check((present ? untouched(ka, kk) : moved(ka, kk)) && va.v == 0xDEAD, "insert_or_assign moves the value, and the key only to insert");
        assigned = true;
        break;
    case 5:
        vf::check(c.insert_or_assign(ka, va).second == !present, "returned flag");
        vf::check(untouched(ka, kk) && va.v == vv, "insert_or_assign leaves lvalues alone");
        assigned = true;
        break;
    case 6:
        (void)c.insert_or_assign(c.cbegin(), std::move(ka), std::move(va));
        vf::check((present ? untouched(ka, kk) : moved(ka, kk)) && va.v == 0xDEAD, "insert_or_assign with a hint moves the value, and the key only to insert");
        assigned = true;
        break;
    case 7:
    {
        const typename C::value_type p{ka, va};
        vf::check(c.insert(p).second == !present, "returned flag");
        vf::check(untouched(p.first, kk) && V(p.second).v == vv, "insert leaves an lvalue alone");
        break;
    }
    case 8:
    {
        P p{ka, va};
        vf::check(c.emplace(p).second == !present, "returned flag");
        vf::check(untouched(p.first, kk) && p.second.v == vv, "emplace leaves an lvalue pair alone");
        break;
    }
    case 9:
    {
        const P p{ka, va};
        vf::check(c.emplace(p).second == !present, "returned flag");
        vf::check(untouched(p.first, kk) && V(p.second).v == vv, "emplace leaves a const pair alone");
        break;
    }
    case 10:
        vf::check(c.emplace(P{ka, va}).second == !present, "returned flag");
        break;
    case 11:
        vf::check(c.emplace(std::piecewise_construct, std::forward_as_tuple(ka), std::forward_as_tuple(va)).second == !present, "returned flag");
        vf::check(untouched(ka, kk) && va.v == vv, "piecewise emplace leaves lvalues alone");
        break;
    case 12:
    {
        vf::check(c.emplace(std::piecewise_construct, std::forward_as_tuple(std::move(ka)), std::forward_as_tuple(std::move(va))).second == !present, "returned flag");
        if (!present) vf::check(moved(ka, kk) && va.v == 0xDEAD, "piecewise emplace moves rvalues");
        break;
    }
    case 13:  // the key is one of the map's own
        if (!present) vf_end();
        inserted = false;
        vf::check(c.erase(c.find(ka)->first) == 1, "erase by an own key");
        vf::check(c.size() == n - 1 && !c.contains(ka), "erase by an own key removes that entry");
        for (size_t i = 0; i < n; i++)
            if (i != at) vf::check(c.contains(key<K>(k[i])) && c.at(key<K>(k[i])).v == v[i], "erase by an own key keeps the others");
        vf_cover("own key");
        return;
    case 14:  // the value is one of the map's own
    {
        if (n == 0) vf_end();
        const size_t o = vf::pick(0, n - 1, "own");
        vf::check(c.insert_or_assign(ka, c.at(key<K>(k[o]))).second == !present, "returned flag");
        result = v[o];
        assigned = true;
        break;
    }
    default:
    {
        if (n == 0) vf_end();
        const size_t o = vf::pick(0, n - 1, "own");
        const C& q = c;
        vf::check(c.try_emplace(ka, q.at(key<K>(k[o]))).second == !present, "returned flag");
        result = v[o];
    }
    }
    vf::check(c.size() == n + inserted, "size");
    for (size_t i = 0; i < n; i++)
        vf::check(c.contains(key<K>(k[i])) && c.at(key<K>(k[i])).v == (i == at && assigned ? result : v[i]), "the other entries keep their values");
    vf::check(c.contains(key<K>(kk)) && c.at(key<K>(kk)).v == (present && !assigned ? v[at] : result), "the entry has its value");
    vf_cover("arguments");
}
}  // namespace args
