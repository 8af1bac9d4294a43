// COVER: own
// BOUNDS: EnumMap and EnumSet over a user-adapted key type of 9 constants listed in descending numeric order: any subset of up to 2 keys inserted in any order, or any of the 512 subsets (set algebra), then every single operation with symbolic key and value
#include "adapted_enum.h"
#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
using namespace fixed_containers;
using namespace assoc;
using A9 = AD<9>;
VF_ENTRY(ad_map_insert__w3) { run<Asc, EnumMap<A9, NT>>(0, 2, 0, INSERT_L, WRITE, 1); }
VF_ENTRY(ad_map_erase__w3) { run<Asc, EnumMap<A9, u16>>(0, 2, 0, ERASE_KEY, LOOKUP, 1); }
VF_ENTRY(ad_set__w3) { run<Asc, EnumSet<A9>>(0, 2, 0, INSERT_L, LOOKUP, 1); }
VF_ENTRY(ad_subsets__w3)
{
    using S = EnumSet<A9>;
    using M = EnumMap<A9, u16>;
    Model<Asc> m, comp;
    S s{};
    M mm{};
    u16 v = vf::sym<u16>("v");
    for (u16 i = 9; i-- > 0;)
    {
        if (vf::coin("in")) { m.add(i, v); s.insert(mk<A9>(i)); mm[mk<A9>(i)] = v; }
        else comp.add(i, 0);
    }
    Model<Asc> ms = m;
    for (size_t i = 0; i < ms.n; i++) ms.v[i] = 0;
    agree(s, ms);
    agree(mm, m);
    auto c = S::complement_of(s);
    agree(c, comp);
    auto ck = M::create_with_keys(c, v);
    for (size_t i = 0; i < comp.n; i++) comp.v[i] = v;
    agree(ck, comp);
    size_t n = 0;
    for (auto it = c.rbegin(); it != c.rend(); ++it) n++;
    vf::check(n + s.size() == 9, "complement size");
    vf_cover("subsets");
}
VF_ENTRY(ad_array)
{
    EnumArray<A9, u16> a{};
    u16 w[9] = {};
    for (int i = 0; i < 3; i++)
    {
        const u16 k = symkey<A9>(), y = vf::sym<u16>("v");
        a[mk<A9>(k)] = y;
        for (u16 j = 0; j < 9; j++) if (j == k) w[j] = y;
    }
    size_t i = 0;
    for (u16 x : a) { vf::check(x == w[i], "array iteration"); i++; }
    vf::check(i == 9, "array iteration");
    vf_cover("array");
}
