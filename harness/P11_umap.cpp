// BOUNDS: FixedUnorderedMap<K,V,CAP,Hash,Eq,BUCKETS>, K,V in {u16, NT}; the hash is a symbolic function of the symbolic key (bucket, fingerprint and full collisions all solver-chosen: H16 keeps 13 key bits, HB bucket only, HF fingerprint only, H0 constant, HW 64 bits wide, HS stateful); up to 4 entries (thorough 5), up to 1 erased again, bucket counts equal to, just above and well above the capacity; every single operation from every such state, every pair at CAP 2 (thorough 3); capacity 0, 1
// OUTSIDE: probe chains longer than the entry bound
#include "assoc_ops.h"
#include "hash_types.h"
#include "fixed_containers/fixed_unordered_map.hpp"
using namespace fixed_containers;
using namespace assoc;
#ifdef VF_DEEP
constexpr size_t N = 5, D = 1;
#else
constexpr size_t N = 4, D = 0;
#endif
template <class K, class V, size_t C, class H, size_t B> using UM = FixedUnorderedMap<K, V, C, H, std::equal_to<K>, B>;
#define SUITE(NAME, NI, NE, ...)                                                     \
    VF_ENTRY(NAME##_insert__w2) { run<Ins, __VA_ARGS__>(0, NI, 0, INSERT_L, WRITE, 1); }  \
    VF_ENTRY(NAME##_erase__w3) { run<Ins, __VA_ARGS__>(0, NE, 1, ERASE_KEY, LOOKUP, 1); }
SUITE(h16_tight, 2, 3, UM<u16, u16, 3, H16, 3>)
SUITE(h16_roomy, 1 + D, 2 + D, UM<NT, NT, 3, H16, 5>)
SUITE(h0, 4, 5, UM<NT, u16, 5, H0, 5>)
SUITE(hb, 3, 3, UM<u16, NT, 3, HB, 4>)
SUITE(hf, 3, N, UM<u16, u16, N, HF, N>)
VF_ENTRY(hw) { run<Ins, UM<u16, u16, 2, HW, 2>>(0, 2, 0, INSERT_L, LOOKUP, 1); }
VF_ENTRY(h16_full__w5) { run<Ins, UM<u16, u16, 3, H16, 3>>(3, 3, 0, INSERT_L, WRITE, 1); }
VF_ENTRY(after_erase__w5) { run<Ins, UM<u16, u16, 4, H16, 4>>(3, 3, 1, INSERT_L, INSERT_L, 1); }
VF_ENTRY(four_buckets__w5)
{
    using M = UM<u16, u16, 4, HB, 4>;
    run<Ins, M>(4, 4, 1, ERASE_KEY, LOOKUP, 1);
}
VF_ENTRY(two_ops__w9) { run<Ins, UM<NT, NT, 2 + D, H16, 2 + D>>(0, 1, 0, INSERT_L, LOOKUP, 2); }
VF_ENTRY(cap1) { run<Ins, FixedUnorderedMap<u16, u16, 1, H16>>(0, 1, 0, INSERT_L, LOOKUP, 2); }
VF_ENTRY(cap0) { run<Ins, FixedUnorderedMap<u16, u16, 0, H16>>(0, 0, 0, ERASE_KEY, LOOKUP, 1); }
VF_ENTRY(stateful)
{
    using M = FixedUnorderedMap<u16, u16, 3, HS, EqS, 4>;
    M c(HS{vf::sym<u16>("mask")}, EqS{true});
    run<Ins, M>(0, 2, 0, INSERT_L, LOOKUP, 1, c);
}
VF_ENTRY(ctors)
{
    using M = FixedUnorderedMap<u16, u16, 3, H16>;
    using P = std::pair<u16, u16>;
    Model<Ins> m;
    size_t k = vf::pick(0, 3);
    P src[3];
    for (size_t i = 0; i < k; i++)
    {
        src[i] = P{vf::sym<u16>("k"), vf::sym<u16>("v")};
        if (!m.has(src[i].first)) m.add(src[i].first, src[i].second);
    }
    switch (vf::pick(0, 3))
    {
    case 0: { M c(static_cast<const P*>(src), static_cast<const P*>(src) + k); agree(c, m); break; }
    case 1: { Stream<P> s{src, k}; M c(InIt<P>{&s}, InIt<P>{}); agree(c, m); break; }
    case 2: if (k == 2) { M c{{src[0].first, src[0].second}, {src[1].first, src[1].second}}; agree(c, m); } break;
    case 3: if (k == 2) { auto c = make_fixed_unordered_map<u16, u16, H16>({{src[0].first, src[0].second}, {src[1].first, src[1].second}}); vf::check(c.max_size() == 2, "make"); agree(c, m); } break;
    }
    vf_cover("ctors");
}
// default hash
VF_ENTRY(default_hash)
{
    FixedUnorderedMap<u32, u16, 1> c{};
    u32 k = vf::sym<u32>("k");
    u16 v = vf::sym<u16>("v");
    vf::check(!c.contains(k), "absent");
    c[k] = v;
    vf::check(c.contains(k) && c.at(k) == v && c.find(k)->first == k && c.size() == 1, "present");
    vf::check(c.erase(k) == 1 && c.empty(), "erased");
}
