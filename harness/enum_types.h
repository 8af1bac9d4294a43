// Enum key types: ordinals (the model's keys) are positions in ascending order of the constants' integer values.
#pragma once
#include "assoc_ops.h"
#include "fixed_containers/enum_utils.hpp"
// contiguous, zero based
enum class EC : u8 { A, B, C, D };
// sparse, negative, declared out of order
enum class ES : std::int16_t { C = 2, A = -3, D = 90, B = 0 };
enum class EBack : u32 { C_ONE = 19, C_FOUR = 25, C_TWO = 21 };
enum class EBool : bool { NO, YES };
enum class EZero { };
namespace fre = fixed_containers::rich_enums;
class R3 : public fre::SkeletalRichEnum<R3, EBack>
{
    friend SkeletalRichEnum::ValuesFriend;
    using SkeletalRichEnum::SkeletalRichEnum;
public:
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(R3, C_ONE)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(R3, C_TWO)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(R3, C_FOUR)
};
class RB : public fre::SkeletalRichEnum<RB, EBool>
{
    friend SkeletalRichEnum::ValuesFriend;
    using SkeletalRichEnum::SkeletalRichEnum;
public:
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(RB, NO)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(RB, YES)
};
// a rich enum with constants at both ends of the reflected range
enum class EWide : std::int8_t { MIN = -128, Z = 0, MAX1 = 126 };
class RW : public fre::SkeletalRichEnum<RW, EWide>
{
    friend SkeletalRichEnum::ValuesFriend;
    using SkeletalRichEnum::SkeletalRichEnum;
};
template <class E> struct Tab;
template <> struct Tab<EC> { static constexpr size_t N = 4; static EC at(u16 o) { return static_cast<EC>(o); } };
template <> struct Tab<ES> { static constexpr size_t N = 4; static ES at(u16 o) { return o == 0 ? ES::A : o == 1 ? ES::B : o == 2 ? ES::C : ES::D; } };
template <> struct Tab<EBack> { static constexpr size_t N = 3; static EBack at(u16 o) { return o == 0 ? EBack::C_ONE : o == 1 ? EBack::C_TWO : EBack::C_FOUR; } };
template <> struct Tab<EBool> { static constexpr size_t N = 2; static EBool at(u16 o) { return o ? EBool::YES : EBool::NO; } };
template <> struct Tab<EWide> { static constexpr size_t N = 3; static EWide at(u16 o) { return o == 0 ? EWide::MIN : o == 1 ? EWide::Z : EWide::MAX1; } };
template <class R> requires requires { typename R::BackingEnum; } struct Tab<R>
{
    using B = typename R::BackingEnum;
    static constexpr size_t N = Tab<B>::N;
    static R at(u16 o) { return R::value_of(Tab<B>::at(o)).value(); }
};
template <class E> requires requires { Tab<E>::N; } u16 val(const E& e)
{
    for (u16 i = 0; i < Tab<E>::N; i++)
        if constexpr (requires { e.backing_enum(); }) { if (e.backing_enum() == Tab<typename E::BackingEnum>::at(i)) return i; }
        else if (e == Tab<E>::at(i)) return i;
    return 99;
}
namespace assoc
{
template <class E> requires requires { Tab<E>::N; } struct Key<E>
{
    static E mk(u16 o) { return Tab<E>::at(o); }
    static E arg(u16 o) { return Tab<E>::at(o); }
    static u16 sym()
    {
        u16 x = static_cast<u16>(vf::sym<u8>("k"));
        vf_assume(x < Tab<E>::N);
        return x;
    }
};
}
