// COVER: own
// BOUNDS: EnumMap and EnumSet over a user-adapted key type of 524 constants with 255, 256 and 260 of them present, inserted in ascending, descending and scattered order; one operation with present and absent keys and positions at which narrow integers wrap, symbolic values; complements and EnumArray around ordinal 256
#define VF_BIG 260
#include "adapted_enum.h"
#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
using namespace fixed_containers;
using namespace assoc;
using AB = AD<524>;
VF_ENTRY(big_map_insert__w3) { run<Asc, EnumMap<AB, u16>>(0, 0, 2, INSERT_L, WRITE, 1); }
VF_ENTRY(big_map_erase__w3) { run<Asc, EnumMap<AB, NT>>(0, 0, 2, ERASE_KEY, LOOKUP, 1); }
VF_ENTRY(big_set__w3) { run<Asc, EnumSet<AB>>(0, 0, 2, INSERT_L, LOOKUP, 1); }
VF_ENTRY(big_complement)
{
    using S = EnumSet<AB>;
    S s{};
    const size_t n = vf::pick(0, 260, "n");
    for (size_t i = 0; i < n; i++) s.insert(mk<AB>(static_cast<u16>(2 * i)));
    auto c = S::complement_of(s);
    vf::check(s.size() == n && c.size() == 524 - n, "complement size");
    size_t k = 0;
    for (const AB& e : c) { vf::check(val(e) == (k < n ? 2 * k + 1 : n + k), "complement contents"); k++; }
    vf::check(k == 524 - n, "complement contents");
    vf::check(S::all().size() == 524 && S::none().empty() && (S::all() == c) == (n == 0), "all and none");
    EnumArray<AB, u16> a{};
    const u16 x = vf::sym<u16>("x"), y = vf::sym<u16>("y");
    const u16 p = static_cast<u16>(vf::pick(0, 523, "p")), q = static_cast<u16>((p + 256) % 524);
    a[mk<AB>(p)] = x;
    a[mk<AB>(q)] = y;
    u16 o = 0;
    for (u16 e : a) { vf::check(e == (o == p ? x : o == q ? y : 0), "array"); o++; }
    vf::check(o == 524 && a.size() == 524, "array");
    vf_cover("complement");
}
