// what the inserting operations of the sets do with their arguments
#pragma once
#include "assoc_ops.h"
#include <utility>
namespace args
{
template <class C, size_t N>
void run_set()
{
    using K = NT;
    C c{};
    const size_t n = vf::pick(0, N, "n");
    u16 k[N];
    for (size_t i = 0; i < n; i++)
    {
        k[i] = vf::sym<u16>("k");
        vf_assume(k[i] != 0xDEAD && k[i] != 0xDDDD);
        for (size_t j = 0; j < i; j++) vf_assume(k[i] != k[j]);
        c.insert(K(k[i]));
    }
    vf::check(c.size() == n, "size");
    const size_t at = vf::pick(0, N, "at");
    u16 kk;
    if (at < n) kk = k[at];
    else
    {
        if (at != N || n == N) vf_end();
        kk = vf::sym<u16>("kk");
        vf_assume(kk != 0xDEAD && kk != 0xDDDD);
        for (size_t j = 0; j < n; j++) vf_assume(kk != k[j]);
    }
    const bool present = at < n;
    K ka(kk);
    bool lvalue = false, rvalue = false;
    switch (vf::pick(0, 9, "op"))
    {
    case 0: vf::check(c.insert(ka).second == !present, "returned flag"); lvalue = true; break;
    case 1: vf::check(c.insert(std::move(ka)).second == !present, "returned flag"); rvalue = true; break;
    case 2: vf::check(c.emplace(ka).second == !present, "returned flag"); lvalue = true; break;
    case 3: vf::check(c.emplace(std::move(ka)).second == !present, "returned flag"); rvalue = true; break;
    case 4: vf::check(c.insert(c.cend(), ka)->v == kk, "returned position"); lvalue = true; break;
    case 5: vf::check(c.insert(c.cend(), std::move(ka))->v == kk, "returned position"); rvalue = true; break;
    case 6: (void)c.emplace_hint(c.cend(), ka); lvalue = true; break;
    case 7: c.insert(&ka, &ka + 1); lvalue = true; break;
    case 8: c.insert({ka}); lvalue = true; break;
    default:
        if (!present) vf_end();
        vf::check(c.erase(*c.find(ka)) == 1, "erase by an own key");
        vf::check(c.size() == n - 1 && !c.contains(ka), "erase by an own key removes it");
        for (size_t i = 0; i < n; i++)
            if (i != at) vf::check(c.contains(K(k[i])), "erase by an own key keeps the others");
        vf_cover("own key");
        return;
    }
    if (lvalue) vf::check(ka.v == kk, "an lvalue argument is left alone");
    if (rvalue && !present) vf::check(ka.v == 0xDEAD, "an rvalue argument is moved from");
    vf::check(c.size() == n + !present, "size");
    for (size_t i = 0; i < n; i++) vf::check(c.contains(K(k[i])), "the other keys stay");
    vf::check(c.contains(K(kk)) && c.find(K(kk))->v == kk, "the key is there");
    vf_cover("arguments");
}
}  // namespace args
