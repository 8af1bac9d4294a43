// every field count: the i-th parameter is the i-th field itself
#pragma once
#define FIXED_CONTAINERS_EXTENDED_STRUCT_DECOMPOSITION_1024 1
#include "vf.h"
#include <utility>
#ifdef VF_NATIVE  // keeps the native build of thousands of parameters fast
#pragma clang optimize off
#pragma clang attribute push(__attribute__((no_sanitize("undefined"))), apply_to = function)
#endif
#include "fixed_containers/struct_decomposition.hpp"
using u16 = std::uint16_t;
template <std::size_t C>
void one(u16* mem, u16 base)
{
    u16(&a)[C] = *reinterpret_cast<u16(*)[C]>(mem);
    bool ok = fixed_containers::struct_decomposition::to_parameter_pack<C>(a, [base](auto&... x) {
        u16* p[] = {&x...};
        for (std::size_t i = 0; i < sizeof...(x); i++) *p[i] = static_cast<u16>(base + i);
        return sizeof...(x) == C;
    });
    u16 diff = 0;
    for (std::size_t i = 0; i < C; i++) diff |= static_cast<u16>(mem[i] ^ static_cast<u16>(base + i));
    vf::check(ok && diff == 0, "every field is passed once and in order");
}
template <std::size_t B, std::size_t... I>
void all(std::index_sequence<I...>)
{
    u16 mem[B + 32] = {};
    u16 base = vf::sym<u16>("base");
    int d[] = {(one<B + I>(mem, base), 0)...};
    (void)d;
    vf_cover("decomposed");
}
#ifdef VF_NATIVE
#pragma clang attribute pop
#endif
