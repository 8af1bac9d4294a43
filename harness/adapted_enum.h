// a user-defined key type with its own EnumAdapter: N constants, listed in an order that is not their numeric order
#pragma once
#include "assoc_ops.h"
#include "fixed_containers/enum_utils.hpp"
#include <array>
#include <string_view>
template <size_t N> struct AD
{
    u16 raw;
    friend constexpr bool operator==(const AD&, const AD&) = default;
};
namespace fixed_containers::rich_enums
{
template <size_t N> struct EnumAdapter<AD<N>>
{
    using Enum = AD<N>;
    static constexpr std::array<Enum, N> VALUES = [] { std::array<Enum, N> a{}; for (size_t i = 0; i < N; i++) a[i].raw = static_cast<u16>(5000 - i); return a; }();
    static constexpr size_t count() { return N; }
    static constexpr const std::array<Enum, N>& values() { return VALUES; }
    static constexpr size_t ordinal(const Enum& e) { return static_cast<size_t>(static_cast<u16>(5000 - e.raw)); }
    static constexpr std::string_view to_string(const Enum&) { return "x"; }
};
}
template <size_t N> u16 val(const AD<N>& e) { return static_cast<u16>(5000 - e.raw); }
namespace assoc
{
template <size_t N> struct Key<AD<N>>
{
    static AD<N> mk(u16 o) { return AD<N>{static_cast<u16>(5000 - o)}; }
    static AD<N> arg(u16 o) { return mk(o); }
    static u16 sym()
    {
#ifdef VF_BIG
        return Key<u16>::sym();
#else
        u16 x = static_cast<u16>(vf::sym<u8>("k"));
        vf_assume(x < N);
        return x;
#endif
    }
};
}
