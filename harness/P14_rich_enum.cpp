// BOUNDS: rich enums over u32 (sparse, out of order), int8 (constants at -128, 0, 126), u8 (zero-based contiguous), bool, and a hand-written Lite enum whose value order differs from the integers; every integer of the underlying type, every backing value (named or not), every name of up to 12 arbitrary bytes (thorough 24), every pair of constants, valueless instances
// OUTSIDE: enums with more than 4 constants; longer non-matching names
#include "enum_types.h"
#include <functional>
#include <string_view>
using namespace fixed_containers;
using namespace assoc;
#ifdef VF_DEEP
constexpr size_t NAME = 24;
#else
constexpr size_t NAME = 12;
#endif
enum class EPlain : u8 { A, BB, CCC, D };
class RP : public fre::NonDefaultConstructibleSkeletalRichEnum<RP, EPlain>
{
    friend SkeletalRichEnum::ValuesFriend;
    using NonDefaultConstructibleSkeletalRichEnum::NonDefaultConstructibleSkeletalRichEnum;
public:
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(RP, A)
};
// values() order: X=2, Y=0, Z=1 (index and integer disagree everywhere)
enum class EL : int { X = 2, Y = 0, Z = 1 };
class RL : public fre::SkeletalRichEnumLite<RL, EL>
{
    friend class RLValues;
    using SkeletalRichEnumLite::SkeletalRichEnumLite;
public:
    static constexpr size_t count() { return 3; }
    static constexpr const std::array<RL, 3>& values();
    constexpr size_t ordinal() const { return backing_enum() == EL::X ? 0 : backing_enum() == EL::Y ? 1 : 2; }
    constexpr std::string_view to_string() const { return backing_enum() == EL::X ? "X" : backing_enum() == EL::Y ? "Y" : "Z"; }
};
class RLValues { friend class RL; static constexpr std::array<RL, 3> V{RL{EL::X}, RL{EL::Y}, RL{EL::Z}}; };
constexpr const std::array<RL, 3>& RL::values() { return RLValues::V; }

struct Const { i64 v; const char* name; };
template <class R> struct Spec;
template <> struct Spec<R3> { static constexpr Const C[] = {{19, "C_ONE"}, {21, "C_TWO"}, {25, "C_FOUR"}}; };
template <> struct Spec<RW> { static constexpr Const C[] = {{-128, "MIN"}, {0, "Z"}, {126, "MAX1"}}; };
template <> struct Spec<RP> { static constexpr Const C[] = {{0, "A"}, {1, "BB"}, {2, "CCC"}, {3, "D"}}; };
template <> struct Spec<RB> { static constexpr Const C[] = {{0, "NO"}, {1, "YES"}}; };
template <> struct Spec<RL> { static constexpr Const C[] = {{2, "X"}, {0, "Y"}, {1, "Z"}}; };
template <class R> constexpr size_t COUNT = sizeof(Spec<R>::C) / sizeof(Const);

template <class R>
void is_const(const R& r, size_t i)
{
    using B = typename R::BackingEnum;
    const Const& c = Spec<R>::C[i];
    B b = r.backing_enum();
    B b2 = r;
    vf::check(static_cast<i64>(b) == c.v && b == b2, "backing value");
    vf::check(r.ordinal() == i, "ordinal");
    vf::check(r.has_value(), "a constant has a value");
    vf::check(r.to_string() == std::string_view(c.name), "name");
    vf::check(r == R::values()[i], "equals the listed constant");
    for (size_t j = 0; j < COUNT<R>; j++) vf::check((r == R::values()[j]) == (i == j), "equals no other constant");
}
template <class R>
void integers()
{
    using B = typename R::BackingEnum;
    using U = std::underlying_type_t<B>;
    vf::check(R::count() == COUNT<R> && R::values().size() == COUNT<R>, "count");
    U x = vf::sym<U>("x");
    auto a = R::value_of(x);
    auto b = R::value_of(static_cast<B>(x));
    bool found = false;
    for (size_t i = 0; i < COUNT<R>; i++)
        if (static_cast<i64>(x) == Spec<R>::C[i].v)
        {
            found = true;
            vf::check(a.has_value() && b.has_value(), "an existing constant converts");
            if (!a || !b) return;
            is_const<R>(*a, i);
            is_const<R>(*b, i);
            vf_cover("constant");
        }
    if (!found)
    {
        vf::check(!a.has_value() && !b.has_value(), "a number without constant does not convert");
        vf_cover("no constant");
    }
}
VF_ENTRY(int_sparse) { integers<R3>(); }
VF_ENTRY(int_wide) { integers<RW>(); }
VF_ENTRY(int_plain) { integers<RP>(); }
VF_ENTRY(int_lite) { integers<RL>(); }
VF_ENTRY(int_bool)
{
    bool x = vf::sym<bool>("x");
    auto a = RB::value_of(x);
    auto b = RB::value_of(static_cast<EBool>(x));
    vf::check(a.has_value() && b.has_value(), "both booleans convert");
    is_const<RB>(*a, x ? 1 : 0);
    is_const<RB>(*b, x ? 1 : 0);
    is_const<RB>(!*a, x ? 0 : 1);
    vf_cover("bool");
}
template <class R>
void names()
{
    char s[NAME + 1];
    size_t n = vf::pick(0, NAME, "len");
    for (size_t i = 0; i < n; i++) s[i] = static_cast<char>(vf::sym<u8>("c"));
    auto a = R::value_of(std::string_view(s, n));
    bool found = false;
    for (size_t i = 0; i < COUNT<R>; i++)
    {
        const char* c = Spec<R>::C[i].name;
        size_t l = 0;
        while (c[l]) l++;
        bool eq = l == n;
        for (size_t j = 0; eq && j < n; j++) eq = s[j] == c[j];
        if (eq)
        {
            found = true;
            vf::check(a.has_value(), "an existing name converts");
            if (!a) return;
            is_const<R>(*a, i);
            vf_cover("name");
        }
    }
    if (!found) { vf::check(!a.has_value(), "another name does not convert"); vf_cover("no name"); }
}
VF_ENTRY(name_sparse) { names<R3>(); }
VF_ENTRY(name_wide) { names<RW>(); }
VF_ENTRY(name_plain) { names<RP>(); }
VF_ENTRY(name_bool) { names<RB>(); }
VF_ENTRY(name_lite) { names<RL>(); }
template <class R>
void valueless()
{
    R none{}, none2{};
    vf::check(!none.has_value(), "default constructed has no value");
    vf::check(none == none2 && none.to_string() == "INVALID", "valueless instances are equal");
    for (size_t i = 0; i < COUNT<R>; i++)
    {
        vf::check(!(none == R::values()[i]) && none != R::values()[i], "valueless differs from every constant");
        R r = R::values()[i];
        is_const<R>(r, i);
        none2 = r;
        is_const<R>(none2, i);
        none2 = none;
        vf::check(!none2.has_value() && none2 == none, "assigned valueless");
    }
    vf_cover("valueless");
    vf_expect_abort(1);
    (void)vf_sym(1, "dummy");
    (void)none.backing_enum();
    vf_expect_abort(0);
    vf::check(false, "reading a valueless rich enum is reported");
}
VF_ENTRY(valueless_sparse) { valueless<R3>(); }
VF_ENTRY(valueless_wide) { valueless<RW>(); }
VF_ENTRY(valueless_bool) { valueless<RB>(); }
// ordinals of plain enums through the adapter, and back
template <class E>
void adapter()
{
    using A = fre::EnumAdapter<E>;
    u16 o = symkey<E>();
    vf::check(A::count() == Tab<E>::N, "count");
    E e = mk<E>(o);
    vf::check(A::ordinal(e) == o, "ordinal");
    for (u16 i = 0; i < Tab<E>::N; i++)
    {
        vf::check(A::values()[i] == mk<E>(i), "values");
        if (i == o) vf::check(A::values()[i] == e, "values inverse of ordinal");
    }
    vf_cover("adapter");
}
VF_ENTRY(adapter_contig) { adapter<EC>(); }
VF_ENTRY(adapter_sparse) { adapter<ES>(); }
VF_ENTRY(adapter_rich) { adapter<R3>(); }
VF_ENTRY(adapter_wide) { adapter<EWide>(); }
// the named accessors
VF_ENTRY(accessors)
{
    is_const<R3>(R3::C_ONE(), 0);
    is_const<R3>(R3::C_TWO(), 1);
    is_const<R3>(R3::C_FOUR(), 2);
    is_const<RP>(RP::A(), 0);
    is_const<RB>(RB::NO(), 0);
    is_const<RB>(RB::YES(), 1);
    u32 x = vf::sym<u32>("x");
    auto a = R3::value_of(x);
    if (a) vf::check(std::hash<R3>{}(*a) == std::hash<EBack>{}(static_cast<EBack>(x)), "hash follows the backing enum");
    vf_cover("accessors");
}
